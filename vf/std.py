"""Assumed contracts on the C++ standard library, boost smart pointers, libc and the logging functions.
Everything in this file is TRUSTED (listed in the evidence as assumptions)."""
import re
import z3
from .engine import *

SP = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
MAXLEN = 1 << 40


class StrV:
    """abstract value of a std::string: bytes object + length"""
    __slots__ = ('obj', 'len')

    def __init__(self, obj, ln):
        self.obj = obj
        self.len = ln

    def havoc(self, eng, st, key):
        return new_str(eng, st, ASym('hstr'), fresh('hlen', 64), bounded=True)


class StreamV(StrV):
    def havoc(self, eng, st, key):
        s = new_str(eng, st, ASym('hss'), fresh('hsslen', 64), bounded=True)
        return StreamV(s.obj, s.len)


def new_str(eng, st, arr, ln, bounded=False, name='strdata'):
    ln = z3.simplify(ln)
    o = eng.new_obj(st, name, 'bytes', size=z3.simplify(ln + 1), arr=AStore(arr, ln, BV(0, 8)))
    if bounded:
        st.assume(z3.ULT(ln, MAXLEN))
    return StrV(o, ln)


def skey(p):
    if p.sym:
        idx, r = None, None
        return ('str', p.obj.id, p.off, tuple((z3.simplify(t).sexpr(), s) for t, s in p.sym))
    return ('str', p.obj.id, p.off)


def get_str(eng, st, ptr):
    p = eng.materialise(st, ptr)
    k = skey(p)
    v = st.ghost.get(k)
    if v is None:
        memo = p.obj.memo.get(('strinit', k))
        if p.obj.kind == 'elems':
            v = elem_str(eng, st, p)
            if v is not None:
                return v
        if memo is None:
            ln = z3.BitVec('len_%s_%d!%d' % (p.obj.name, p.off, p.obj.id), 64)
            arr = ASym('str_%s_%d' % (p.obj.name, p.off))
            o = Obj('strdata_%s+%d' % (p.obj.name, p.off), 'bytes', size=z3.simplify(ln + 1))
            o.memo['arr'] = AStore(arr, ln, BV(0, 8))
            memo = StrV(o, ln)
            p.obj.memo[('strinit', k)] = memo
        v = memo
        st.assume(z3.ULT(v.len, MAXLEN))
        st.ghost[k] = v
    return v


def elem_str(eng, st, p):
    f = getattr(p.obj, 'strfield', None)
    if f:
        return f(eng, st, p)
    return None


def str_arr(eng, st, v):
    return eng.ost(st, v.obj).arr


def put_str(eng, st, ptr, v):
    p = eng.materialise(st, ptr)
    k = skey(p)
    if p.sym and p.obj.kind == 'elems' and getattr(p.obj, 'strstore', None):
        p.obj.strstore(eng, st, p, v)
        return
    eng.setghost(st, k, v)


def set_str(eng, st, ptr, arr, ln):
    p = eng.materialise(st, ptr)
    old = st.ghost.get(skey(p))
    v = new_str(eng, st, arr, ln)
    if old is not None and old.obj.id in st.mem and not getattr(old.obj, 'shared', False):
        s = eng.wst(st, old.obj)
        s.freed = True
    put_str(eng, st, p, v)
    return v


def alias_str(eng, st, dst, v):
    """dst becomes an independent copy of abstract string v"""
    arr = str_arr(eng, st, v)
    return set_str(eng, st, dst, arr, v.len)


def cstr(eng, st, ptr):
    """(arr, offset, len) of the NUL-terminated string at ptr"""
    p = eng.materialise(st, ptr)
    if p.obj.kind != 'bytes':
        if p.obj.kind == 'cells' and not p.sym and isinstance(p.obj.size, int):
            s = eng.ost(st, p.obj)
            bs = [eng.bytes_of(st, p.obj, s, k) for k in range(p.obj.size)]
            for k in range(p.off, p.obj.size):
                if cval(bs[k]) == 0:
                    return AFn(lambda i: __import__('vf.engine', fromlist=['_sel'])._sel(bs, i)), c64(p.off), c64(k - p.off)
        if p.obj.lazy:
            # opaque C string
            memo = p.obj.memo
            if 'cstr' not in memo:
                memo['cstr'] = (ASym('cstr_' + p.obj.name), fresh('cstrlen', 64))
            a, n = memo['cstr']
            st.assume(z3.ULT(n, MAXLEN))
            return a, c64(0), n
        raise Unsupported("C string in %s" % p.obj.name)
    s = eng.ost(st, p.obj)
    off = p.offterm()
    lit = getattr(p.obj, 'lit', None)
    if lit is not None and cval(off) is not None:
        o = cval(off)
        n = lit.index(0, o) - o
        return s.arr, off, c64(n)
    # a std::string's own buffer with no embedded NUL assumption: strlen symbolic
    n = fresh('strlen', 64)
    st.assume(s.arr.get(off + n) == 0)
    st.assume(z3.ULT(n, MAXLEN))
    arr = s.arr
    st.forall(lambda k, arr=arr, off=off, n=n: Implies(z3.ULT(k, n), arr.get(off + k) != 0), 'strlen')
    st.hint(c64(0))
    return arr, off, n


def lit_len(v):
    return cval(v.len)


def str_eq(eng, st, a1, o1, n1, a2, o2, n2):
    """Bool term for equality of two byte sequences, with the axioms that define it"""
    c1, c2 = cval(n1), cval(n2)
    if c1 is not None or c2 is not None:
        n = c1 if c1 is not None else c2
        if c1 is not None and c2 is not None and c1 != c2:
            return FALSE
        if n <= 64:
            return z3.simplify(And(n1 == n2, *[a1.get(z3.simplify(o1 + k)) == a2.get(z3.simplify(o2 + k)) for k in range(n)]))
    e = fresh('streq', 'bool')
    w = fresh('neq_at', 64)
    st.assume(Implies(e, n1 == n2))
    st.assume(Implies(And(Not(e), n1 == n2), And(z3.ULT(w, n1), a1.get(o1 + w) != a2.get(o2 + w))))
    st.forall(lambda k: Implies(And(e, z3.ULT(k, n1)), a1.get(o1 + k) == a2.get(o2 + k)), 'streq')
    return e


def ret_this(eng, st, args, name):
    return args[0]


def nop(eng, st, args, name):
    return None


def install(eng):
    C = eng.contract

    # ---- logging / check macros
    def log_handler(eng, st, args, name):
        lv = cval(args[0])
        if lv == 0:
            eng.oblige(st, FALSE, "SCHECK-abort-unreachable")
            raise Stop()
        return None
    C(r'^sofa::pbrpc::internal::log_handler', log_handler)
    C(r'^sofa::pbrpc::internal::get_log_level', lambda e, s, a, n: BV(0, 32))
    C(r'^__assert_fail', lambda e, s, a, n: _abort(e, s, 'assert'))
    C(r'^abort$', lambda e, s, a, n: _abort(e, s, 'abort'))
    C(r'^std::terminate', lambda e, s, a, n: _abort(e, s, 'terminate'))
    C(r'^__cxa_allocate_exception', lambda e, s, a, n: P(e.new_obj(s, 'exc', 'cells')))
    C(r'^std::(runtime_error|logic_error|invalid_argument)::\1?', nop)

    def throw(e, s, a, n):
        s.event('throw')
        if e.exc_policy == 'fail':
            e.oblige(s, FALSE, 'exception-unreachable')
        elif callable(e.exc_policy):
            e.exc_policy(e, s)
        raise Stop()
    C(r'^__cxa_throw$', throw)
    C(r'^__cxa_(begin_catch|end_catch|free_exception|atexit|guard)', nop)

    # ---- memory
    def op_new(e, s, a, n):
        sz = cval(a[0])
        o = e.new_obj(s, 'new', 'cells' if sz is not None else 'bytes', size=sz if sz is not None else a[0])
        return P(o)

    def op_new_arr(e, s, a, n):
        o = e.new_obj(s, 'newarr', 'bytes', size=cval(a[0]) if cval(a[0]) is not None else a[0])
        return P(o)

    def op_del(e, s, a, n):
        if isinstance(a[0], P) and a[0].obj.kind != 'fn' and not getattr(a[0].obj, 'isnull', False):
            e.wst(s, a[0].obj).freed = True
            s.event('delete', a[0].obj)
        return None
    C(r'^operator new\(unsigned long', op_new)
    C(r'^operator new\[\]\(unsigned long', op_new_arr)
    C(r'^operator delete(\[\])?\(void\*', op_del)

    def memcmp(e, s, a, n):
        A, B_ = e.materialise(s, a[0]), e.materialise(s, a[1])
        nn = a[2]
        e.check_access(s, A, nn, 'memcmp')
        e.check_access(s, B_, nn, 'memcmp')
        r = fresh('memcmp', 32)

        def rd(p):
            ss = e.ost(s, p.obj)
            if p.obj.kind == 'bytes':
                return ss.arr, p.offterm()
            if cval(nn) is not None:
                bs = [e.bytes_of(s, p.obj, ss, p.off + k) for k in range(cval(nn))]
                return AFn(lambda i: Engine_sel(bs, i)), c64(0)
            raise Unsupported('memcmp')
        a1, o1 = rd(A)
        a2, o2 = rd(B_)
        eq = str_eq(e, s, a1, o1, nn, a2, o2, nn)
        s.assume((r == 0) == eq)
        return r
    C(r'^(memcmp|bcmp)$', memcmp)

    def memcpy_(e, s, a, n):
        e.memcpy(s, a[0], a[1], a[2])
        return a[0]
    C(r'^(memcpy|memmove)$', memcpy_)

    def memset_(e, s, a, n):
        e.memset(s, a[0], z3.Extract(7, 0, a[1]), a[2])
        return a[0]
    C(r'^memset$', memset_)

    def strlen(e, s, a, n):
        return cstr(e, s, a[0])[2]
    C(r'^strlen$', strlen)
    C(r'^std::char_traits<char>::length', strlen)

    def toupper(e, s, a, n):
        x = a[0]
        return z3.If(And(x >= 97, x <= 122), x - 32, x)

    def tolower(e, s, a, n):
        x = a[0]
        return z3.If(And(x >= 65, x <= 90), x + 32, x)
    C(r'^toupper$', toupper)
    C(r'^tolower$', tolower)

    # ---- std::min/max on ints
    # (defined inline: executed from their bodies)

    # ---- std::string
    def s_default(e, s, a, n):
        set_str(e, s, a[0], AConst(BV(0, 8)), c64(0))

    def s_copy(e, s, a, n):
        v = get_str(e, s, a[1])
        alias_str(e, s, a[0], v)

    def s_from_n(e, s, a, n):
        p = e.materialise(s, a[1])
        if p.obj.kind == 'cells':
            nv = cval(a[2])
            ss = e.ost(s, p.obj)
            if nv is None:
                if not isinstance(p.obj.size, int):
                    raise Unsupported('string(ptr,n) from struct')
                nv = p.obj.size - p.off
                e.check_access(s, p, a[2], 'string(ptr,n)')
            else:
                e.check_access(s, p, nv, 'string(ptr,n)')
            bs = [e.bytes_of(s, p.obj, ss, p.off + k) for k in range(nv)]
            set_str(e, s, a[0], AFn(lambda i: Engine_sel(bs, i)), a[2])
            return
        e.check_access(s, p, a[2], 'string(ptr,n)')
        arr = e.ost(s, p.obj).arr
        set_str(e, s, a[0], ACopy(AConst(BV(0, 8)), c64(0), a[2], arr, p.offterm()), a[2])

    def s_from_c(e, s, a, n):
        arr, off, ln = cstr(e, s, a[1])
        set_str(e, s, a[0], ACopy(AConst(BV(0, 8)), c64(0), ln, arr, off), ln)

    def s_fill(e, s, a, n):
        set_str(e, s, a[0], AConst(a[2]), a[1])

    def s_size(e, s, a, n):
        return get_str(e, s, a[0]).len

    def s_empty(e, s, a, n):
        return z3.simplify(get_str(e, s, a[0]).len == 0)

    def s_data(e, s, a, n):
        return P(get_str(e, s, a[0]).obj)

    def s_index(e, s, a, n):
        v = get_str(e, s, a[0])
        # operator[] allows pos == size()
        e.oblige(s, z3.ULE(a[1], v.len), 'string-index')
        return P(v.obj).addsym(a[1], 1)

    def s_at(e, s, a, n):
        v = get_str(e, s, a[0])
        e.oblige(s, z3.ULT(a[1], v.len), 'string-at')
        return P(v.obj).addsym(a[1], 1)

    def s_push(e, s, a, n):
        v = get_str(e, s, a[0])
        set_str(e, s, a[0], AStore(str_arr(e, s, v), v.len, a[1]), v.len + 1)

    def s_pluschar(e, s, a, n):
        s_push(e, s, a, n)
        return a[0]

    def app(e, s, dst, arr, off, ln):
        v = get_str(e, s, dst)
        set_str(e, s, dst, ACopy(str_arr(e, s, v), v.len, ln, arr, off), v.len + ln)
        return dst

    def s_app_str(e, s, a, n):
        v = get_str(e, s, a[1])
        return app(e, s, a[0], str_arr(e, s, v), c64(0), v.len)

    def s_app_n(e, s, a, n):
        p = e.materialise(s, a[1])
        e.check_access(s, p, a[2], 'append')
        if p.obj.kind != 'bytes':
            nv = cval(a[2])
            ss = e.ost(s, p.obj)
            if nv is None:
                raise Unsupported('append from struct')
            bs = [e.bytes_of(s, p.obj, ss, p.off + k) for k in range(nv)]
            return app(e, s, a[0], AFn(lambda i: Engine_sel(bs, i)), c64(0), a[2])
        return app(e, s, a[0], e.ost(s, p.obj).arr, p.offterm(), a[2])

    def s_app_c(e, s, a, n):
        arr, off, ln = cstr(e, s, a[1])
        return app(e, s, a[0], arr, off, ln)

    def s_app_fill(e, s, a, n):
        return app(e, s, a[0], AConst(a[2]), c64(0), a[1])

    def s_assign(e, s, a, n):
        v = get_str(e, s, a[1])
        alias_str(e, s, a[0], v)
        return a[0]

    def s_assign_c(e, s, a, n):
        s_from_c(e, s, a, n)
        return a[0]

    def s_assign_n(e, s, a, n):
        s_from_n(e, s, a, n)
        return a[0]

    def s_clear(e, s, a, n):
        set_str(e, s, a[0], AConst(BV(0, 8)), c64(0))

    def s_substr(e, s, a, n):
        # sret, this, pos, n
        v = get_str(e, s, a[1])
        e.oblige(s, z3.ULE(a[2], v.len), 'substr-pos')
        ln = z3.simplify(z3.If(z3.ULE(a[3], v.len - a[2]), a[3], v.len - a[2]))
        set_str(e, s, a[0], ACopy(AConst(BV(0, 8)), c64(0), ln, str_arr(e, s, v), a[2]), ln)

    def s_resize(e, s, a, n):
        v = get_str(e, s, a[0])
        fill = a[2] if len(a) > 2 else BV(0, 8)
        cut = v.len
        set_str(e, s, a[0], ACopy(AConst(fill), c64(0), z3.If(z3.ULT(cut, a[1]), cut, a[1]), str_arr(e, s, v), c64(0)), a[1])

    def s_swap(e, s, a, n):
        v1, v2 = get_str(e, s, a[0]), get_str(e, s, a[1])
        put_str(e, s, a[0], v2)
        put_str(e, s, a[1], v1)

    def s_find_char(e, s, a, n):
        v = get_str(e, s, a[0])
        arr = str_arr(e, s, v)
        r = fresh('find', 64)
        pos = a[2]
        s.assume(Or(r == -1, And(z3.ULT(r, v.len), z3.UGE(r, pos), arr.get(r) == a[1])))
        s.forall(lambda k: Implies(And(z3.UGE(k, pos), z3.ULT(k, v.len), Or(r == -1, z3.ULT(k, r))), arr.get(k) != a[1]), 'find')
        s.hint(r)
        return r

    def s_rfind_char(e, s, a, n):
        v = get_str(e, s, a[0])
        arr = str_arr(e, s, v)
        r = fresh('rfind', 64)
        last = z3.If(z3.ULT(a[2], v.len), a[2] + 1, v.len)        # positions below last are looked at
        s.assume(Or(r == -1, And(z3.ULT(r, last), arr.get(r) == a[1])))
        s.forall(lambda k: Implies(And(z3.ULT(k, last), Or(r == -1, z3.UGT(k, r))), arr.get(k) != a[1]), 'rfind')
        s.hint(r)
        return r

    def s_find_str(e, s, a, n):
        v = get_str(e, s, a[0])
        arr = str_arr(e, s, v)
        if e.demangled(n).split('find(')[1].startswith('char const*'):
            na, no, nn = cstr(e, s, a[1])
        else:
            w = get_str(e, s, a[1])
            na, no, nn = str_arr(e, s, w), c64(0), w.len
        c = cval(z3.simplify(nn))
        if c is None or c > 8:
            raise Unsupported('find of a long or unknown text')
        at = lambda k: And(*[arr.get(z3.simplify(k + j)) == na.get(z3.simplify(no + j)) for j in range(c)])
        r, pos = fresh('find', 64), a[2]
        s.assume(Or(r == -1, And(z3.ULE(r + c, v.len), z3.ULE(r, v.len), z3.UGE(r, pos), at(r))))
        s.forall(lambda k: Implies(And(z3.UGE(k, pos), z3.ULE(k, v.len), z3.ULE(k + c, v.len), Or(r == -1, z3.ULT(k, r))), Not(at(k))), 'find')
        s.hint(r)
        return r

    C(SP + r'basic_string\(\)$', s_default)
    C(SP + r'basic_string\(' + STR + r'( const)?&&?\)$', s_copy)
    C(SP + r'basic_string(<std::allocator<char> >)?\(char const\*, unsigned long, std::allocator<char> const&\)$', s_from_n)
    C(SP + r'basic_string(<std::allocator<char> >)?\(char const\*, std::allocator<char> const&\)$', s_from_c)
    C(SP + r'basic_string(<std::allocator<char> >)?\(unsigned long, char, std::allocator<char> const&\)$', s_fill)
    C(SP + r'~basic_string\(\)$', nop)
    C(SP + r'(size|length)\(\) const$', s_size)
    C(SP + r'empty\(\) const$', s_empty)
    C(SP + r'(c_str|data)\(\)( const)?$', s_data)
    C(SP + r'operator\[\]\(unsigned long\)( const)?$', s_index)
    C(SP + r'at\(unsigned long\)( const)?$', s_at)
    C(SP + r'push_back\(char\)$', s_push)
    C(SP + r'operator\+=\(char\)$', s_pluschar)
    C(SP + r'operator\+=\(' + STR + r' const&\)$', s_app_str)
    C(SP + r'operator\+=\(char const\*\)$', s_app_c)
    C(SP + r'append\(' + STR + r' const&\)$', s_app_str)
    C(SP + r'append\(char const\*, unsigned long\)$', s_app_n)
    C(SP + r'append\(char const\*\)$', s_app_c)
    C(SP + r'append\(unsigned long, char\)$', s_app_fill)
    C(SP + r'(operator=|assign)\(' + STR + r'( const)?&&?\)$', s_assign)
    C(SP + r'(operator=|assign)\(char const\*\)$', s_assign_c)
    C(SP + r'assign\(char const\*, unsigned long\)$', s_assign_n)
    C(SP + r'operator=\(char\)$', lambda e, s, a, n: (set_str(e, s, a[0], AStore(AConst(BV(0, 8)), c64(0), a[1]), c64(1)), a[0])[1])
    C(SP + r'clear\(\)$', s_clear)
    C(SP + r'reserve\(', nop)
    C(SP + r'capacity\(', lambda e, s, a, n: fresh('cap', 64))
    C(SP + r'substr\(unsigned long, unsigned long\) const$', s_substr)
    C(SP + r'resize\(', s_resize)
    C(SP + r'swap\(', s_swap)
    C(SP + r'(find|find_first_of)\(char, unsigned long\) const$', s_find_char)
    C(SP + r'(rfind|find_last_of)\(char, unsigned long\) const$', s_rfind_char)
    C(SP + r'find\((char const\*|' + STR + r' const&), unsigned long\) const$', s_find_str)
    C(r'^std::allocator<char>::(~?allocator)', nop)
    C(r'^std::(__new_)?allocator<.*>::~?(__new_)?allocator\(', nop)

    def eq_ss(e, s, a, n):
        v, w = get_str(e, s, a[0]), get_str(e, s, a[1])
        return str_eq(e, s, str_arr(e, s, v), c64(0), v.len, str_arr(e, s, w), c64(0), w.len)

    def eq_sc(e, s, a, n):
        v = get_str(e, s, a[0])
        arr, off, ln = cstr(e, s, a[1])
        return str_eq(e, s, str_arr(e, s, v), c64(0), v.len, arr, off, ln)
    TA = r'(<char, std::char_traits<char>, std::allocator<char> >|<char>)'
    C(r'bool std::operator==' + TA + r'\(' + STR + r' const&, ' + STR + r' const&\)', eq_ss)
    C(r'bool std::operator!=' + TA + r'\(' + STR + r' const&, ' + STR + r' const&\)', lambda e, s, a, n: z3.simplify(Not(eq_ss(e, s, a, n))))
    C(r'bool std::operator==' + TA + r'\(' + STR + r' const&, char const\*\)', eq_sc)
    C(r'bool std::operator!=' + TA + r'\(' + STR + r' const&, char const\*\)', lambda e, s, a, n: z3.simplify(Not(eq_sc(e, s, a, n))))

    # operator+
    def plus(e, s, a, n):
        def part(x, ty):
            if ty == 'c':
                return cstr(e, s, x)
            if ty == 'ch':
                return AConst(x), c64(0), c64(1)
            v = get_str(e, s, x)
            return str_arr(e, s, v), c64(0), v.len
        d = e.demangled(n)
        sig = d[d.index('operator+'):]
        sig = sig[sig.index('(') + 1:]
        t1 = 'c' if sig.startswith('char const*') else 'ch' if sig.startswith('char,') else 's'
        t2 = 'c' if sig.endswith('char const*)') else 'ch' if sig.endswith(', char)') else 's'
        a1, o1, n1 = part(a[1], t1)
        a2, o2, n2 = part(a[2], t2)
        x = ACopy(AConst(BV(0, 8)), c64(0), n1, a1, o1)
        set_str(e, s, a[0], ACopy(x, n1, n2, a2, o2), n1 + n2)
    C(r'^' + STR + r' std::operator\+<char', plus)
    C(r'^std::operator\+(<char|\[abi)', plus)

    # ---- string streams (abstracted to the bytes written)
    def sskey(e, s, ptr):
        return ('ss', e.materialise(s, ptr).obj.id)

    def ssget(e, s, ptr):
        k = sskey(e, s, ptr)
        v = s.ghost.get(k)
        if v is None:
            p = e.materialise(s, ptr)
            x = new_str(e, s, ASym('stream'), fresh('streamlen', 64), bounded=True)
            v = StreamV(x.obj, x.len)
            s.ghost[k] = v
        return v

    def ssput(e, s, ptr, arr, off, ln):
        v = ssget(e, s, ptr)
        x = new_str(e, s, ACopy(str_arr(e, s, v), v.len, ln, arr, off), v.len + ln)
        e.setghost(s, sskey(e, s, ptr), StreamV(x.obj, x.len))
        return ptr

    def ss_ctor(e, s, a, n):
        x = new_str(e, s, AConst(BV(0, 8)), c64(0))
        e.setghost(s, sskey(e, s, a[0]), StreamV(x.obj, x.len))
    SS = r'^std::__cxx11::basic_(o|)stringstream<char, std::char_traits<char>, std::allocator<char> >::'
    C(SS + r'basic_o?stringstream\(', ss_ctor)
    C(SS + r'~basic_o?stringstream', nop)

    def ss_str(e, s, a, n):
        v = ssget(e, s, a[1])
        alias_str(e, s, a[0], v)
    C(SS + r'str(\[abi:cxx11\])?\(\) const', ss_str)

    def os_char(e, s, a, n):
        c = a[1]
        return ssput(e, s, a[0], AConst(c), c64(0), c64(1))
    C(r'std::operator<< ?<std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, (unsigned |signed |)char\)', os_char)

    def os_cstr(e, s, a, n):
        arr, off, ln = cstr(e, s, a[1])
        return ssput(e, s, a[0], arr, off, ln)
    C(r'std::operator<< ?<std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, char const\*\)', os_cstr)

    def os_str(e, s, a, n):
        v = get_str(e, s, a[1])
        return ssput(e, s, a[0], str_arr(e, s, v), c64(0), v.len)
    C(r'std::operator<< ?<char, std::char_traits<char>, std::allocator<char> >\(std::basic_ostream<char, std::char_traits<char> >&, ' + STR, os_str)

    def os_num(e, s, a, n):
        x = a[1]
        if isinstance(x, z3.BoolRef):
            x = b2bv(x, 8)
        f = z3.Function('declen%d' % x.size(), x.sort(), z3.BitVecSort(64))
        g = z3.Function('decdig%d' % x.size(), x.sort(), z3.BitVecSort(64), z3.BitVecSort(8))
        ln = f(x)
        s.assume(And(z3.ULE(ln, 24), z3.UGE(ln, 1)))
        return ssput(e, s, a[0], AFn(lambda i: g(x, i)), c64(0), ln)
    C(r'^std::(basic_)?ostream(<char, std::char_traits<char> >)?::operator<<\((unsigned |)(int|long|short|long long|char)\)', os_num)
    C(r'^std::(basic_)?ostream(<char, std::char_traits<char> >)?::operator<<\(std::(basic_)?ostream.*\(\*\)', ret_this)


def Engine_sel(bs, i):
    from . import engine
    return engine._sel(bs, i)


def _abort(e, s, what):
    e.oblige(s, FALSE, what + '-unreachable')
    raise Stop()
