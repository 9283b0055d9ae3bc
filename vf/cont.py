"""Assumed contracts on the standard sequence containers (std::deque / std::list / std::vector) and on shared_ptr.
A container is an abstract sequence: an element array with a window [lo, lo+len).  Iterators are element positions
(a pointer into the element array in the iterator object's first word)."""
import re
import z3
from .engine import *
from .std import *

SEQ = r'^std::(__cxx11::)?(deque|list|vector)<'


class SeqV:
    __slots__ = ('obj', 'lo', 'len')

    def __init__(self, obj, lo, ln):
        self.obj, self.lo, self.len = obj, lo, ln

    def havoc(self, eng, st, key):
        n = fresh('hlen', 64)
        lo = fresh('hlo', 64)
        st.assume(z3.ULT(n, 1 << 48))
        st.assume(z3.ULT(lo, 1 << 48))
        return SeqV(self.obj, lo, n)

    def at(self, eng, st, i, r, size):
        """field r of the i-th element (i counted from the front)"""
        return eng.elem_field(st, self.obj, eng.ost(st, self.obj), r, size).get(z3.simplify(self.lo + i))


def type_layout(eng, tname):
    """(stride, [(off, size)]) of the element type named in C++"""
    m = eng.m
    t = tname.strip()
    prim = {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'char': 1, 'unsigned char': 1, 'bool': 1,
            'long long': 8, 'unsigned long long': 8, 'short': 2, 'unsigned short': 2, 'double': 8, 'float': 4}
    if t.endswith('*'):
        return 8, [(0, 8)]
    if t in prim:
        return prim[t], [(0, prim[t])]
    if re.match(r'(sofa::pbrpc|boost|std)::(shared|weak)_ptr<.*>$', t):
        return 16, [(0, 8), (8, 8)]
    for pre in ('class.', 'struct.', 'union.'):
        for q in (pre + t,):
            try:
                ty = ('named', q)
                rt = m.resolve(ty)
                sz = m.sizeof(ty)
                return sz, flat_layout(eng, ty)
            except Exception:
                pass
    raise Unsupported('element type %s' % t)


def flat_layout(eng, ty, base=0):
    m = eng.m
    rt = m.resolve(ty)
    if rt[0] == 'struct':
        out = []
        for i in range(len(rt[1])):
            o, ft = m.field_off(rt, i)
            out += flat_layout(eng, ft, base + o)
        return out
    if rt[0] == 'arr':
        es = m.sizeof(rt[2])
        out = []
        for i in range(rt[1]):
            out += flat_layout(eng, rt[2], base + i * es)
        return out
    return [(base, m.sizeof(rt))]


def elem_name(dem):
    m = re.match(r'std::(?:__cxx11::)?(?:deque|list|vector|_Deque_iterator|_List_iterator|_List_const_iterator|_Vector_base)<', dem)
    s = dem[m.end():]
    d = 0
    for i, c in enumerate(s):
        if c in '<(':
            d += 1
        elif c in '>)':
            if d == 0:
                return s[:i].strip()
            d -= 1
        elif c == ',' and d == 0:
            return s[:i].strip()
    return s


def new_seq(eng, st, tname, name='seq', lo=None, ln=None):
    stride, lay = type_layout(eng, tname)
    o = eng.new_obj(st, name, 'elems', size=None, stride=stride)
    o.layout = lay
    return SeqV(o, c64(0) if lo is None else lo, c64(0) if ln is None else ln)


def qkey(p):
    if p.sym:
        raise Unsupported('container inside an element')
    return ('seq', p.obj.id, p.off)


def get_seq(eng, st, ptr, name=None):
    p = eng.materialise(st, ptr)
    k = qkey(p)
    v = st.ghost.get(k)
    if v is None:
        key = ('seqinit', k)
        v = p.obj.memo.get(key)
        if v is None:
            if name is None:
                raise Unsupported('unknown container state at %r' % p)
            stride, lay = type_layout(eng, elem_name(name))
            o = Obj('seq_%s+%d' % (p.obj.name, p.off), 'elems', stride=stride)
            o.layout = lay
            v = SeqV(o, c64(0), z3.BitVec('seqlen_%s_%d!%d' % (p.obj.name, p.off, p.obj.id), 64))
            p.obj.memo[key] = v
        st.assume(z3.ULT(v.len, 1 << 40))
        st.ghost[k] = v
        v.obj.seqkey = k
    return v


def put_seq(eng, st, ptr, v):
    p = eng.materialise(st, ptr)
    v.obj.seqkey = qkey(p)
    eng.setghost(st, qkey(p), v)


def elem_ptr(v, i):
    return P(v.obj).addsym(z3.simplify(v.lo + i), v.obj.stride)


def copy_elem(eng, st, v, idx, src):
    """element idx (absolute) := *src"""
    eng.memcpy(st, P(v.obj).addsym(idx, v.obj.stride), src, c64(v.obj.stride))


def install(eng):
    C = eng.contract
    W = r'(std::(__cxx11::)?(deque|list|vector)<.*>)'

    def S(e, s, a, n, k=0):
        return get_seq(e, s, a[k], e.demangled(n))

    def ctor(e, s, a, n):
        v = new_seq(e, s, elem_name(e.demangled(n)))
        put_seq(e, s, a[0], v)

    def size(e, s, a, n):
        return S(e, s, a, n).len

    def empty(e, s, a, n):
        return z3.simplify(S(e, s, a, n).len == 0)

    def push_back(e, s, a, n):
        v = S(e, s, a, n)
        put_seq(e, s, a[0], SeqV(v.obj, v.lo, z3.simplify(v.len + 1)))
        copy_elem(e, s, v, z3.simplify(v.lo + v.len), a[1])

    def push_front(e, s, a, n):
        v = S(e, s, a, n)
        nl = z3.simplify(v.lo - 1)
        put_seq(e, s, a[0], SeqV(v.obj, nl, z3.simplify(v.len + 1)))
        copy_elem(e, s, v, nl, a[1])

    def pop_front(e, s, a, n):
        v = S(e, s, a, n)
        e.oblige(s, v.len != 0, 'pop_front-nonempty')
        put_seq(e, s, a[0], SeqV(v.obj, z3.simplify(v.lo + 1), z3.simplify(v.len - 1)))

    def pop_back(e, s, a, n):
        v = S(e, s, a, n)
        e.oblige(s, v.len != 0, 'pop_back-nonempty')
        put_seq(e, s, a[0], SeqV(v.obj, v.lo, z3.simplify(v.len - 1)))

    def front(e, s, a, n):
        v = S(e, s, a, n)
        e.oblige(s, v.len != 0, 'front-nonempty')
        return elem_ptr(v, c64(0))

    def back(e, s, a, n):
        v = S(e, s, a, n)
        e.oblige(s, v.len != 0, 'back-nonempty')
        return elem_ptr(v, v.len - 1)

    def index(e, s, a, n):
        v = S(e, s, a, n)
        e.oblige(s, z3.ULT(a[1], v.len), 'index-in-range')
        return elem_ptr(v, a[1])

    def clear(e, s, a, n):
        v = S(e, s, a, n)
        put_seq(e, s, a[0], SeqV(v.obj, z3.simplify(v.lo + v.len), c64(0)))

    def swap(e, s, a, n):
        v, w = S(e, s, a, n), S(e, s, a, n, 1)
        put_seq(e, s, a[0], w)
        put_seq(e, s, a[1], v)

    def mkit(e, s, a, n, p_of):
        d = e.demangled(n)
        if re.match(r'std::deque', d):
            v = S(e, s, a, n, 1)
            e.store(s, a[0], ('ptr',), p_of(v))
            return None
        v = S(e, s, a, n)
        return p_of(v)

    C(SEQ + r'.*>::(deque|list|vector)\(\)$', ctor)
    C(SEQ + r'.*>::~(deque|list|vector)\(\)$', nop)
    C(SEQ + r'.*>::size\(\) const$', size)
    C(SEQ + r'.*>::empty\(\) const$', empty)
    C(SEQ + r'.*>::push_back\(', push_back)
    C(SEQ + r'.*>::push_front\(', push_front)
    C(SEQ + r'.*>::pop_front\(\)$', pop_front)
    C(SEQ + r'.*>::pop_back\(\)$', pop_back)
    C(SEQ + r'.*>::front\(\)( const)?$', front)
    C(SEQ + r'.*>::back\(\)( const)?$', back)
    C(SEQ + r'.*>::(operator\[\]|at)\(unsigned long\)( const)?$', index)
    C(SEQ + r'.*>::clear\(\)$', clear)
    C(SEQ + r'.*>::reserve\(', nop)
    C(SEQ + r'.*>::swap\(', swap)
    C(SEQ + r'.*>::c?begin\(\)( const)?$', lambda e, s, a, n: mkit(e, s, a, n, lambda v: elem_ptr(v, c64(0))))
    C(SEQ + r'.*>::c?end\(\)( const)?$', lambda e, s, a, n: mkit(e, s, a, n, lambda v: elem_ptr(v, v.len)))

    C(SEQ + r'.*>::c?rbegin\(\)( const)?$', lambda e, s, a, n: e.store(s, a[0], ('ptr',), (lambda v: elem_ptr(v, v.len))(S(e, s, a, n, 1))))
    C(SEQ + r'.*>::c?rend\(\)( const)?$', lambda e, s, a, n: e.store(s, a[0], ('ptr',), (lambda v: elem_ptr(v, c64(0)))(S(e, s, a, n, 1))))

    # iterators of deque / list
    def stride_of(e, n):
        return type_layout(e, elem_name(e.demangled(n)))[0]

    def it_move(delta):
        def h(e, s, a, n):
            p = e.load(s, a[0], ('ptr',))
            if not isinstance(p, P):
                raise Unsupported('unknown iterator')
            e.store(s, a[0], ('ptr',), p.add(delta * p.obj.stride))
            return a[0]
        return h
    IT = r'^std::_(Deque|List)_(const_)?iterator<.*>::'
    C(IT + r'operator\+\+\(\)$', it_move(1))
    C(IT + r'operator--\(\)$', it_move(-1))

    def it_add(sign):
        def h(e, s, a, n):
            p = e.load(s, a[0], ('ptr',))
            e.store(s, a[0], ('ptr',), p.addsym(z3.simplify(a[1] * sign), p.obj.stride))
            return a[0]
        return h
    C(IT + r'operator\+=\(', it_add(1))
    C(IT + r'operator-=\(', it_add(-1))

    def it_post(delta):
        def h(e, s, a, n):
            d = e.demangled(n)
            if 'Deque' in d:
                p = e.load(s, a[1], ('ptr',))
                e.store(s, a[0], ('ptr',), p)
                e.store(s, a[1], ('ptr',), p.add(delta * p.obj.stride))
                return None
            p = e.load(s, a[0], ('ptr',))
            e.store(s, a[0], ('ptr',), p.add(delta * p.obj.stride))
            return p
        return h
    C(IT + r'operator\+\+\(int\)$', it_post(1))
    C(IT + r'operator--\(int\)$', it_post(-1))

    def it_deref(e, s, a, n):
        return e.load(s, a[0], ('ptr',))
    C(IT + r'operator(\*|->)\(\) const$', it_deref)

    # shared_ptr: {px, pn}
    SPT = r'^(sofa::pbrpc|boost)::shared_ptr<.*>::'
    C(r'^(sofa::pbrpc|boost)::detail::shared_count::', nop)


def seqcheck(eng, st, p):
    """element access must be inside the container window"""
    k = getattr(p.obj, 'seqkey', None)
    if k is None:
        return
    v = st.ghost.get(k)
    if v is None or v.obj is not p.obj:
        return
    idx, r = eng.elem_split(p)
    eng.oblige(st, z3.ULT(idx - v.lo, v.len), 'element-in-range')
