"""Deductive VC generator: forward symbolic execution of the real functions' LLVM IR, cut at loop heads by
(checked) inductive invariants and at contracted calls by contracts; every obligation goes to an SMT solver.

Integers are bit-vectors of the machine width (wrap-around is exact).  Memory is a set of separate objects
(ownership discipline): struct objects map constant offsets to values, byte objects and element arrays carry
their content as functions of the index.
"""
import os
import re, subprocess, time, itertools, sys, os, json
import z3
from . import irparse
from .irparse import Module

sys.setrecursionlimit(20000)
BV = z3.BitVecVal
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


QLOG = os.environ.get('VERIF_QLOG')
DUMP = os.environ.get('VERIF_DUMP')
DBG = os.environ.get('VERIF_DEBUGLOOP')


class Unsupported(Exception):
    pass


class Stop(Exception):
    pass


_ctr = itertools.count()


def fresh(name, w):
    n = "%s!%d" % (name, next(_ctr))
    if w == 1 or w == 'bool':
        return z3.Bool(n)
    return z3.BitVec(n, w)


def c64(v):
    return z3.BitVecVal(v, 64)


def is_c(t):
    return isinstance(t, z3.BitVecNumRef)


def simp(t):
    return z3.simplify(t)


def cval(t):
    """constant python int (unsigned) of a term or None"""
    if isinstance(t, int):
        return t
    if is_c(t):
        return t.as_long()
    if isinstance(t, z3.ExprRef):
        s = z3.simplify(t)
        if is_c(s):
            return s.as_long()
    return None


def b2bv(b, w):
    if z3.is_true(b):
        return BV(1, w)
    if z3.is_false(b):
        return BV(0, w)
    return z3.If(b, BV(1, w), BV(0, w))


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    return z3.Not(x)


def Ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def Implies(a, b):
    return z3.Implies(a, b)


# --- content functions ------------------------------------------------------
class Arr:
    """immutable function index(BV64) -> BV(w)"""
    w = 8

    def get(self, i):
        raise NotImplementedError


class ASym(Arr):
    def __init__(self, name, w=8):
        self.w = w
        self.name = "%s!%d" % (name, next(_ctr))
        self.f = z3.Function(self.name, z3.BitVecSort(64), z3.BitVecSort(w))

    def get(self, i):
        return self.f(z3.simplify(i))


class ALit(Arr):
    def __init__(self, data):
        self.data = data
        self.w = 8

    def get(self, i):
        v = cval(i)
        if v is not None:
            return BV(self.data[v], 8) if 0 <= v < len(self.data) else BV(0, 8)
        r = BV(0, 8)
        for k in range(len(self.data) - 1, -1, -1):
            r = z3.If(i == k, BV(self.data[k], 8), r)
        return r


class AConst(Arr):
    def __init__(self, v):
        self.v = v
        self.w = v.size()

    def get(self, i):
        return self.v


class AStore(Arr):
    def __init__(self, base, i, v):
        self.base, self.i, self.v = base, z3.simplify(i), v
        self.w = base.w

    def get(self, i):
        i = z3.simplify(i)
        e = z3.simplify(i == self.i)
        if z3.is_true(e):
            return self.v
        if z3.is_false(e):
            return self.base.get(i)
        return z3.If(e, self.v, self.base.get(i))


class ACopy(Arr):
    """base with [d, d+n) replaced by src[s..)"""

    def __init__(self, base, d, n, src, s):
        self.base, self.d, self.n, self.src, self.s = base, z3.simplify(d), z3.simplify(n), src, z3.simplify(s)
        self.w = base.w

    def get(self, i):
        c = z3.simplify(z3.ULT(i - self.d, self.n))
        if z3.is_true(c):
            return self.src.get(z3.simplify(i - self.d + self.s))
        if z3.is_false(c):
            return self.base.get(i)
        return z3.If(c, self.src.get(z3.simplify(i - self.d + self.s)), self.base.get(i))


class AIte(Arr):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.w = a.w

    def get(self, i):
        return z3.If(self.c, self.a.get(i), self.b.get(i))


class AFn(Arr):
    def __init__(self, fn, w=8):
        self.fn = fn
        self.w = w

    def get(self, i):
        return self.fn(i)


# --- objects and pointers -----------------------------------------------------
class Obj:
    """static description of an object (shared by all states)"""
    _n = itertools.count(1)

    def __init__(self, name, kind, size=None, nonnull=True, stride=None, addr=None, const=False):
        self.id = next(Obj._n)
        self.name = name
        self.kind = kind  # 'cells' | 'bytes' | 'elems' | 'fn'
        self.size = size  # BV64 term / int / None (unchecked)
        self.nonnull = nonnull
        self.stride = stride
        self.addr = addr if addr is not None else z3.BitVec("addr_%s!%d" % (name, self.id), 64)
        self.memo = {}
        self.const = const
        self.lazy = False
        self.local = False

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class OState:
    __slots__ = ('cells', 'ranges', 'arr', 'fields', 'freed', 'init')

    def __init__(self):
        self.cells = {}
        self.ranges = ()
        self.arr = None
        self.fields = {}
        self.freed = False
        self.init = None

    def copy(self):
        o = OState()
        o.cells = dict(self.cells)
        o.ranges = self.ranges
        o.arr = self.arr
        o.fields = dict(self.fields)
        o.freed = self.freed
        o.init = self.init
        return o


class P:
    """pointer into an object: base + off + sum(term*stride)"""
    __slots__ = ('obj', 'off', 'sym')

    def __init__(self, obj, off=0, sym=()):
        self.obj = obj
        self.off = off
        self.sym = sym

    def add(self, c):
        return P(self.obj, self.off + c, self.sym)

    def addsym(self, term, stride):
        v = cval(term)
        if v is not None:
            if v >= 1 << 63:
                v -= 1 << 64
            return P(self.obj, self.off + v * stride, self.sym)
        for k, (t, s) in enumerate(self.sym):
            if s == stride:
                nt = z3.simplify(t + term)
                v = cval(nt)
                if v is not None:
                    if v >= 1 << 63:
                        v -= 1 << 64
                    return P(self.obj, self.off + v * stride, self.sym[:k] + self.sym[k + 1:])
                return P(self.obj, self.off, self.sym[:k] + ((nt, s),) + self.sym[k + 1:])
        return P(self.obj, self.off, self.sym + ((term, stride),))

    def offterm(self):
        t = c64(self.off)
        for x, s in self.sym:
            t = t + (x if s == 1 else x * s)
        return z3.simplify(t)

    def addrterm(self):
        return self.obj.addr + self.offterm()

    def __repr__(self):
        return "P(%s+%d%s)" % (self.obj.name, self.off, ''.join('+%s*%d' % (t, s) for t, s in self.sym))


class FnP:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "&" + self.name


class Agg:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals


class Undef:
    pass


def is_ptr(v):
    return isinstance(v, (P, FnP))


def ptr_term(v):
    """address of a pointer value as a BV64 term"""
    if isinstance(v, P):
        return v.addrterm()
    if isinstance(v, FnP):
        return z3.BitVec("fn_" + v.name, 64)
    return v


class State:
    __slots__ = ('pc', 'mem', 'ghost', 'hyps', 'hints', 'events', 'bind', 'wlog', 'depth', 'flags', 'status', 'trace')

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.ghost = {}
        self.hyps = []
        self.hints = []
        self.events = ()
        self.bind = {}
        self.wlog = None
        self.depth = 0
        self.flags = {}
        self.status = None
        self.trace = ()

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.hyps = list(self.hyps)
        s.hints = list(self.hints)
        s.events = self.events
        s.bind = dict(self.bind)
        s.wlog = self.wlog
        s.depth = self.depth
        s.flags = dict(self.flags)
        s.status = self.status
        s.trace = self.trace
        return s

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_true(c):
            return self
        self.pc.append(c)
        return self

    def forall(self, fn, label='h'):
        """assume: for every BV64 k: fn(k)"""
        self.hyps.append((label, fn))
        return self

    def forall2(self, fn, label='h2'):
        """assume: for all BV64 j, k: fn(j, k)"""
        self.hyps.append(('#2' + label, fn))
        return self

    def hint(self, *ts):
        for t in ts:
            self.hints.append(t)
        return self

    def event(self, *e):
        self.events = self.events + (tuple(e),)
        return self


class ForAll:
    """goal: for every BV64 k, fn(k) (fn -> Bool)"""

    def __init__(self, fn, hints=()):
        self.fn = fn
        self.hints = hints


class Result:
    def __init__(self, name, status, model=None, time_s=0.0, solver='z3', detail='', st=None):
        self.name = name
        self.status = status  # 'proved' | 'refuted' | 'unknown' | 'unsupported'
        self.model = model
        self.time_s = time_s
        self.solver = solver
        self.detail = detail
        self.st = st
        self.model_s = ''


JOBSERVER = None     # (read fd, write fd) of a pipe holding one byte per prover slot, shared by all jobs of a check


class Par:
    """proof attempts in forked children (a snapshot of the verifier each), at most JOBSERVER slots at a time"""

    def __init__(self):
        self.live = {}

    def submit(self, fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                try:
                    import ctypes
                    ctypes.CDLL(None).prctl(1, 9)
                except Exception:
                    pass
                tok = os.read(JOBSERVER[0], 1) if JOBSERVER else b''
                try:
                    d = fn()
                finally:
                    if JOBSERVER:
                        os.write(JOBSERVER[1], tok)
            except BaseException:
                import traceback
                d = dict(status='unknown', t=0.0, solver='-', model='', detail=traceback.format_exc()[-800:])
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(json.dumps(d).encode())
            finally:
                os._exit(0)
        os.close(w)
        return pid, r

    def result(self, tok):
        pid, r = tok
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            return json.loads(data)
        except Exception:
            return dict(status='unknown', t=0.0, solver='-', model='', detail='prover process died')


class Engine:
    parallel = True
    quick_ms = 120
    quick = False

    def __init__(self, module, demangle=True):
        self.par = Par()
        self.pending = []
        self.m = module
        self.contracts = []
        self.results = []
        self.nqueries = 0
        self.solver_time = 0.0
        self.silent = 0
        self.gobjs = {}
        self.dm = {}
        self.rdm = {}
        self.unroll = []       # (regex, n)
        self.loopspecs = []    # (regex, fn(engine, ctx) -> list of (name, inv(st, env)))
        self.inlined = set()
        self.contracted = {}
        self.fail_fast = False
        self.timeout = 20000
        self.max_paths = 4000
        self.max_depth = 40
        self.opaque_policy = None
        self.exc_policy = 'fail'
        self.cur = ''
        self.loops_proved = 0
        self.loop_info = []
        self.bounded = []
        self.covers = 0
        self.deadline = None
        self.indirect = None
        self._feas_cache = {}
        self._unroll_no = {}
        self.rewrites = []
        self.objs = {}
        self._inst_cache = {}
        self.loophints = []
        self.first_timeout = 5000
        self.local_hints = None     # drop the hints of earlier loops, keep these
        self.split_goals = True
        self.slicing = True
        self._vars, self._qcache = {}, {}
        self.loopcases = []
        self.after_memcpy = None  # fn(engine, state, dst, n) -> states (ghost re-statement of copied bytes)
        self.auto_hints = True    # (regex, fn(engine, ctx, st, env) -> [terms])
        self.used = set()
        self.check_freed = True
        self.current_fn = []
        self._prep_names()

    # -- names
    def _prep_names(self):
        names = list(self.m.functions) + [g for g in self.m._gl if g.startswith('_ZTV')]
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, p.stdout.split('\n')):
            self.dm[a] = b
            self.rdm.setdefault(b, a)

    def demangled(self, n):
        return self.dm.get(n, n)

    def find(self, regex):
        """unique defined function whose demangled name matches"""
        r = re.compile(regex)
        c = [n for n, f in self.m.functions.items() if not f.decl and r.search(self.dm[n])]
        # prefer complete-object constructors (C1/C2 duplicates)
        if len(c) > 1:
            d = {self.dm[x] for x in c}
            if len(d) == 1:
                c2 = [x for x in c if 'C2E' in x or 'D2E' in x]
                return (c2 or c)[0]
        if len(c) != 1:
            raise Unsupported("function %s: %d matches %s" % (regex, len(c), [self.dm[x] for x in c][:5]))
        return c[0]

    def contract(self, regex, handler, trusted=True, label=None):
        self.contracts.append((re.compile(regex), handler, trusted, label or regex))

    def lookup_contract(self, name):
        d = self.demangled(name)
        r = self.contracted.get(name, 0)
        if r != 0:
            return r
        res = None
        for rx, h, tr, lab in reversed(self.contracts):
            if rx.search(d):
                res = (h, tr, lab)
                break
        self.contracted[name] = res
        return res

    # -- objects
    def new_obj(self, st, name, kind, size=None, stride=None, nonnull=True, addr=None, arr=None):
        o = Obj(name, kind, size, nonnull, stride, addr)
        self.objs[o.id] = o
        os_ = OState()
        if kind == 'bytes':
            os_.arr = arr if arr is not None else ASym(name)
        st.mem[o.id] = os_
        if nonnull:
            st.assume(o.addr != 0)
        return o

    def ost(self, st, o):
        s = st.mem.get(o.id)
        if s is None:
            s = OState()
            if o.kind == 'bytes':
                s.arr = o.memo.get('arr') or o.memo.setdefault('arr', ASym(o.name))
            st.mem[o.id] = s
        return s

    def wst(self, st, o):
        s = self.ost(st, o).copy()
        st.mem[o.id] = s
        return s

    # -- globals
    def global_ptr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.functions:
            return FnP(name)
        if name in self.gobjs:
            return P(self.gobjs[name])
        g = self.m.gdef(name)
        if g is None:
            o = Obj('g_' + name, 'cells')
            self.gobjs[name] = o
            return P(o)
        ty, init, isc = g
        if init is not None and init[0] == 'bytes':
            o = Obj('g_' + name, 'bytes', size=len(init[1]), const=isc)
            o.memo['arr'] = ALit(init[1])
            o.lit = init[1]
        elif init is not None and init[0] == 'zero' and ty[0] == 'arr' and ty[2] == ('i', 8):
            o = Obj('g_' + name, 'bytes', size=ty[1], const=isc)
            o.memo['arr'] = ALit(b'\0' * ty[1]) if isc else ASym(name)
        elif ty[0] == 'arr' and ty[2][0] == 'i' and isc and init is not None and init[0] == 'agg':
            w = ty[2][1]
            o = Obj('g_' + name, 'elems', size=ty[1] * (w // 8), stride=w // 8, const=True)
            vals = [v[1][1] if v[1][0] == 'int' else 0 for v in init[1]]
            o.memo['table'] = (w, vals)
        else:
            o = Obj('g_' + name, 'cells', const=isc)
            if isc and init is not None:
                o.memo['init'] = (ty, init)
        self.gobjs[name] = o
        return P(o)

    def ginit_cell(self, st, o, off, size):
        """value of constant global at offset"""
        ty, init = o.memo['init']
        return self._init_at(st, ty, init, off, size)

    def _init_at(self, st, ty, init, off, size):
        rt = self.m.resolve(ty)
        if init is None or init[0] == 'undef':
            return None
        if rt[0] in ('struct', 'arr'):
            if init[0] == 'zero':
                return BV(0, size * 8)
            if init[0] == 'bytes':
                d = init[1][off:off + size]
                return BV(int.from_bytes(d, 'little'), size * 8)
            if rt[0] == 'struct':
                for i in range(len(rt[1])):
                    fo, ft = self.m.field_off(rt, i)
                    if fo <= off < fo + self.m.sizeof(ft):
                        return self._init_at(st, ft, init[1][i][1], off - fo, size)
                return None
            es = self.m.sizeof(rt[2])
            i = off // es
            if i >= len(init[1]):
                return None
            return self._init_at(st, rt[2], init[1][i][1], off - i * es, size)
        if off != 0:
            return None
        return self.const(st, rt, init)

    # -- constants / values
    def const(self, st, ty, v):
        k = v[0]
        if k == 'int':
            w = ty[1] if ty[0] == 'i' else 64
            if w == 1:
                return TRUE if v[1] & 1 else FALSE
            return BV(v[1], w)
        if k == 'null':
            return c64(0)
        if k == 'zero':
            rt = self.m.resolve(ty)
            if rt[0] == 'i':
                return BV(0, rt[1]) if rt[1] > 1 else FALSE
            if rt[0] == 'ptr':
                return c64(0)
            if rt[0] == 'struct':
                return Agg([self.const(st, f, ('zero',)) for f in rt[1]])
            if rt[0] == 'arr':
                return Agg([self.const(st, rt[2], ('zero',)) for _ in range(rt[1])])
            if rt[0] in ('double',):
                return BV(0, 64)
            if rt[0] == 'float':
                return BV(0, 32)
        if k == 'undef':
            return self.havoc_val(ty, 'undef')
        if k == 'global':
            return self.global_ptr(st, v[1])
        if k == 'fp':
            return self.fpconst(ty, v[1])
        if k == 'cgep':
            base = self.const(st, v[2][0][0], v[2][0][1])
            idx = [(t, self.const(st, t, x)) for t, x in v[2][1:]]
            return self.gep(st, v[1], base, idx)
        if k == 'ccast':
            x = self.const(st, v[2], v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'agg':
            return Agg([self.const(st, t, x) for t, x in v[1]])
        if k == 'cbin':
            a = self.const(st, v[2], v[3])
            b = self.const(st, v[2], v[4])
            if v[1] == 'icmp':
                return self.icmp(st, v[5], a, b)
            return self.binop(v[1], a, b)
        raise Unsupported("const %r" % (v,))

    def fpconst(self, ty, s):
        import struct
        w = {'double': 64, 'float': 32, 'x86_fp80': 80}[ty[0]]
        if s.startswith('0xK'):
            return BV(int(s[3:], 16), 80)
        if s.startswith('0x'):
            bits = int(s[2:], 16)
            if ty[0] == 'float':
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                return BV(struct.unpack('<I', struct.pack('<f', d))[0], 32)
            return BV(bits, w)
        d = float(s)
        if w == 32:
            return BV(struct.unpack('<I', struct.pack('<f', d))[0], 32)
        return BV(struct.unpack('<Q', struct.pack('<d', d))[0], 64)

    def havoc_val(self, ty, name):
        rt = self.m.resolve(ty)
        if rt[0] == 'i':
            return fresh(name, rt[1] if rt[1] > 1 else 'bool')
        if rt[0] == 'ptr':
            return fresh(name, 64)
        if rt[0] == 'double':
            return fresh(name, 64)
        if rt[0] == 'float':
            return fresh(name, 32)
        if rt[0] == 'x86_fp80':
            return fresh(name, 80)
        if rt[0] == 'struct':
            return Agg([self.havoc_val(f, name) for f in rt[1]])
        if rt[0] == 'arr':
            return Agg([self.havoc_val(rt[2], name) for _ in range(rt[1])])
        raise Unsupported("havoc %r" % (ty,))

    def val(self, st, env, ty, v):
        if v[0] == 'local':
            return env[v[1]]
        return self.const(st, ty, v)

    # -- pointers
    def materialise(self, st, v):
        """P for an opaque pointer term"""
        if isinstance(v, P):
            return v
        if isinstance(v, FnP):
            return P(Obj('fn_' + v.name, 'cells', addr=z3.BitVec("fn_" + v.name, 64)))
        if z3.is_bv(v):
            s = z3.simplify(v)
            key = s.get_id()
            if key in st.bind:
                return st.bind[key][1]
            if self.opaque_policy:
                r = self.opaque_policy(self, st, s)
                if r is not None:
                    st.bind[key] = (s, r)
                    return r
            if is_c(s):
                if s.as_long() == 0:
                    o = Obj('null', 'cells', addr=c64(0), nonnull=False)
                    o.isnull = True
                    return P(o)
                raise Unsupported("deref of constant address")
            o = self.lazy_obj(s)
            p = P(o)
            st.bind[key] = (s, p)
            return p
        raise Unsupported("materialise %r" % (v,))

    _lazy = {}

    def lazy_obj(self, s):
        key = s.sexpr()
        o = self._lazy.get(key)
        if o is None:
            o = Obj('lazy(%s)' % key[:60], 'cells', nonnull=False, addr=s)
            o.lazy = True
            self._lazy[key] = o
        return o

    def gep(self, st, ty, base, idx):
        if not isinstance(base, P):
            allc = all(cval(i[1]) == 0 for i in idx)
            if allc:
                return base
            base = self.materialise(st, base)
        p = base
        # first index
        t0, i0 = idx[0]
        p = p.addsym(self.sx64(i0), self.m.sizeof(ty))
        cur = ty
        for t, i in idx[1:]:
            rt = self.m.resolve(cur)
            if rt[0] == 'struct':
                off, ft = self.m.field_off(rt, cval(i))
                p = p.add(off)
                cur = ft
            elif rt[0] in ('arr', 'vec'):
                p = p.addsym(self.sx64(i), self.m.sizeof(rt[2]))
                cur = rt[2]
            else:
                raise Unsupported("gep into %r" % (rt,))
        return self.redir(p)

    def redir(self, p):
        """a byte region inside a struct (declared by the contract with region()) is an object of its own"""
        rg = p.obj.memo.get('regions')
        if rg:
            for off, size, o in rg:
                if off <= p.off < off + size:
                    return P(o, p.off - off, p.sym)
        return p

    def region(self, st, obj, off, size, name, kind='bytes', stride=None):
        """treat bytes [off, off+size) of struct obj as a byte array (for byte-wise access at symbolic offsets)"""
        o = self.new_obj(st, name, kind, size=size, addr=z3.simplify(obj.addr + off), stride=stride)
        obj.memo.setdefault('regions', []).append((off, size, o))
        return o

    def sx64(self, v):
        if isinstance(v, z3.BoolRef):
            return b2bv(v, 64)
        w = v.size()
        if w < 64:
            return z3.simplify(z3.SignExt(64 - w, v))
        return v

    # -- memory access
    def check_access(self, st, p, size, what):
        o = p.obj
        if getattr(o, 'isnull', False):
            self.oblige(st, FALSE, "null-deref:%s" % what)
            raise Stop()
        if not o.nonnull:
            k = ('nn', o.id)
            if not st.flags.get(k):
                self.oblige(st, o.addr != 0, "nonnull:%s(%s)" % (what, o.name))
                st.flags[k] = True
                st.assume(o.addr != 0)
        if self.check_freed and self.ost(st, o).freed:
            self.oblige(st, FALSE, "use-after-free:%s(%s)" % (what, o.name))
            raise Stop()
        if o.kind == 'elems' and getattr(o, 'seqkey', None) is not None and self.seqcheck is not None:
            self.seqcheck(self, st, p)
        if o.size is not None and o.kind in ('bytes', 'elems', 'cells'):
            sz = o.size if not isinstance(o.size, int) else c64(o.size)
            off = p.offterm()
            vo, vs = cval(off), cval(sz)
            n = size if not isinstance(size, int) else c64(size)
            if vo is not None and vs is not None and cval(n) is not None:
                ok = vo + cval(n) <= vs
                if ok:
                    return
                self.oblige(st, FALSE, "bounds:%s(%s)" % (what, o.name))
                raise Stop()
            g = And(z3.ULE(off, sz), z3.ULE(n, sz - off))
            self.oblige(st, g, "bounds:%s(%s)" % (what, o.name))

    def load(self, st, ptr, ty):
        rt = self.m.resolve(ty)
        if rt[0] == 'struct':
            out = []
            for i in range(len(rt[1])):
                off, ft = self.m.field_off(rt, i)
                out.append(self.load(st, self.padd(st, ptr, off), ft))
            return Agg(out)
        if rt[0] == 'arr':
            es = self.m.sizeof(rt[2])
            return Agg([self.load(st, self.padd(st, ptr, i * es), rt[2]) for i in range(rt[1])])
        p = self.materialise(st, ptr)
        size = self.m.sizeof(rt)
        self.check_access(st, p, size, 'load')
        isptr = rt[0] == 'ptr'
        v = self.read(st, p, size, isptr)
        if rt[0] == 'i' and rt[1] == 1:
            if isinstance(v, z3.BoolRef):
                return v
            return z3.Extract(0, 0, v) == 1
        if rt[0] == 'i' and not isptr and is_ptr(v):
            return v  # integer holding a pointer
        if rt[0] == 'i' and isinstance(v, z3.BitVecRef) and v.size() > rt[1]:
            return z3.Extract(rt[1] - 1, 0, v)
        return v

    def padd(self, st, ptr, n):
        if n == 0:
            return ptr
        return self.redir(self.materialise(st, ptr).add(n))

    def read(self, st, p, size, isptr):
        o = p.obj
        s = self.ost(st, o)
        if o.kind == 'bytes':
            off = p.offterm()
            if size == 1:
                return s.arr.get(off)
            g = self.ptr_in_bytes(st, o, off) if isptr else None
            if g is not None:
                return g
            return z3.simplify(z3.Concat(*[s.arr.get(z3.simplify(off + k)) for k in range(size - 1, -1, -1)]))
        if o.kind == 'elems':
            return self.read_elem(st, o, s, p, size, isptr)
        if p.sym:
            v = cval(p.offterm())
            if v is None:
                return self.read_symoff(st, o, p, size, isptr)
            p = P(o, v if v < 1 << 63 else v - (1 << 64))
        return self.read_cell(st, o, s, p.off, size, isptr)

    def ptr_in_bytes(self, st, o, off):
        return None

    def read_symoff(self, st, o, p, size, isptr):
        """symbolic index into a cells object (e.g. a member array): ite over the known extent"""
        if len(p.sym) == 1 and isinstance(o.size, int):
            t, stride = p.sym[0]
            n = (o.size - p.off) // stride if stride else 0
            lo = 0
            if 0 < n <= 64:
                s = self.ost(st, o)
                vals = [self.read_cell(st, o, s, p.off + k * stride, size, isptr) for k in range(lo, n)]
                r = ptr_term(vals[-1])
                for k in range(n - 2, -1, -1):
                    r = z3.If(t == k, ptr_term(vals[k]), r)
                return r
        raise Unsupported("symbolic offset into %s" % o.name)

    def fresh_cell(self, o, off, size, isptr):
        """initial content of an input object at an offset: same symbol in every state"""
        key = (off, size)
        v = o.memo.get(key)
        if v is None:
            for (k, v2) in list(o.memo.items()):
                if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int):
                    o2, s2 = k
                    if o2 <= off and off + size <= o2 + s2 and isinstance(v2, z3.BitVecRef) and (o2, s2) != key:
                        v = z3.Extract((off - o2 + size) * 8 - 1, (off - o2) * 8, v2)
                        return v
            # composed of smaller already-known symbols?
            parts = [k for k in o.memo if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int)
                     and not (k[0] + k[1] <= off or off + size <= k[0])]
            if parts:
                bs = []
                for b in range(off + size - 1, off - 1, -1):
                    bs.append(self.fresh_cell(o, b, 1, False))
                return z3.Concat(*bs)
            v = z3.BitVec("%s@%d.%d!%d" % (o.name, off, size, o.id), size * 8)
            o.memo[key] = v
        return v

    def read_cell(self, st, o, s, off, size, isptr):
        c = s.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if c is not None and c[0] > size and isinstance(c[1], z3.BitVecRef):
            return z3.Extract(size * 8 - 1, 0, c[1])
        if c is not None and isinstance(c[1], z3.BoolRef) and size == 1:
            return b2bv(c[1], 8)
        # overlapping?
        ov = [k for k, v in s.cells.items() if not (k + v[0] <= off or off + size <= k)]
        if not ov:
            return self.read_range(st, o, s, off, size, isptr)
        if size == 1:
            k = ov[0]
            v = s.cells[k][1]
            if isinstance(v, z3.BoolRef):
                v = b2bv(v, 8)
            if is_ptr(v):
                v = ptr_term(v)
            return z3.Extract((off - k) * 8 + 7, (off - k) * 8, v)
        bs = [self.read_cell(st, o, s, b, 1, False) for b in range(off + size - 1, off - 1, -1)]
        return z3.simplify(z3.Concat(*bs))

    def read_range(self, st, o, s, off, size, isptr):
        for (ro, rn, rsrc, rso, fn) in s.ranges:
            if ro <= off and off + size <= ro + rn:
                return fn(self, st, rso + (off - ro), size, isptr)
            if not (ro + rn <= off or off + size <= ro):
                if size == 1:
                    raise Unsupported("range")
                bs = [self.read_range(st, o, s, b, 1, False) for b in range(off + size - 1, off - 1, -1)]
                return z3.simplify(z3.Concat(*bs))
        if 'init' in o.memo:
            v = self.ginit_cell(st, o, off, size)
            if v is not None:
                return v
        if s.init is not None:
            return s.init(off, size, isptr)
        return self.fresh_cell(o, off, size, isptr)

    def read_elem(self, st, o, s, p, size, isptr):
        S = o.stride
        idx = c64(0)
        c = p.off
        for t, k in p.sym:
            if k % S == 0:
                idx = idx + t * (k // S) if k != S else idx + t
            else:
                v = cval(t)
                if v is None:
                    raise Unsupported("elem stride %d in %s(stride %d)" % (k, o.name, S))
                c += v * k
        q, r = divmod(c, S)
        idx = z3.simplify(idx + q)
        if 'table' in o.memo:
            w, vals = o.memo['table']
            v = cval(idx)
            if v is not None and v < len(vals):
                return BV(vals[v], w)
            x = BV(vals[-1], w)
            for k in range(len(vals) - 2, -1, -1):
                x = z3.If(idx == k, BV(vals[k], w), x)
            return x
        a = self.elem_field(st, o, s, r, size)
        return a.get(idx)

    def elem_field(self, st, o, s, r, size):
        f = s.fields.get(r)
        if f is not None and f[0] == size:
            return f[1]
        if f is not None:
            if f[0] > size:
                a = f[1]
                return AFn(lambda i: z3.Extract(size * 8 - 1, 0, a.get(i)), size * 8)
            raise Unsupported("elem field width")
        for k, (sz, a) in s.fields.items():
            if k < r < k + sz:
                d = r - k
                return AFn(lambda i, a=a, d=d: z3.Extract((d + size) * 8 - 1, d * 8, a.get(i)), size * 8)
        key = ('ef', r, size)
        a = o.memo.get(key)
        if a is None:
            a = o.memo[key] = ASym("%s.%d" % (o.name, r), size * 8)
        return a

    def elem_split(self, p):
        o = p.obj
        S = o.stride
        idx = c64(0)
        c = p.off
        for t, k in p.sym:
            if k % S:
                raise Unsupported("elem stride")
            idx = idx + t * (k // S) if k != S else idx + t
        q, r = divmod(c, S)
        return z3.simplify(idx + q), r

    def store(self, st, ptr, ty, v):
        rt = self.m.resolve(ty)
        if rt[0] == 'struct' and isinstance(v, Agg):
            for i in range(len(rt[1])):
                off, ft = self.m.field_off(rt, i)
                self.store(st, self.padd(st, ptr, off), ft, v.vals[i])
            return
        if rt[0] == 'arr' and isinstance(v, Agg):
            es = self.m.sizeof(rt[2])
            for i in range(rt[1]):
                self.store(st, self.padd(st, ptr, i * es), rt[2], v.vals[i])
            return
        p = self.materialise(st, ptr)
        size = self.m.sizeof(rt)
        self.check_access(st, p, size, 'store')
        if isinstance(v, z3.BoolRef):
            v = b2bv(v, size * 8)
        elif isinstance(v, z3.BitVecRef) and v.size() != size * 8:
            v = z3.ZeroExt(size * 8 - v.size(), v)
        self.write(st, p, size, v)

    def write(self, st, p, size, v):
        o = p.obj
        if o.const:
            self.oblige(st, FALSE, "write-to-const")
            raise Stop()
        s = self.wst(st, o)
        if o.kind == 'bytes':
            self.log(st, (o.id, 'arr'))
            off = p.offterm()
            t = ptr_term(v)
            for k in range(size):
                s.arr = AStore(s.arr, z3.simplify(off + k), z3.simplify(z3.Extract(k * 8 + 7, k * 8, t)))
            return
        if o.kind == 'elems':
            idx, r = self.elem_split(p)
            a = self.elem_field(st, o, s, r, size)
            if r in s.fields and s.fields[r][0] != size:
                raise Unsupported("elem store width")
            self.log(st, (o.id, 'ef', r, size))
            s.fields[r] = (size, AStore(a, idx, ptr_term(v)))
            return
        if p.sym:
            ov = cval(p.offterm())
            if ov is None:
                if len(p.sym) == 1 and isinstance(o.size, int):
                    t, stride = p.sym[0]
                    n = (o.size - p.off) // stride
                    if 0 < n <= 64:
                        for k in range(n):
                            old = self.read_cell(st, o, s, p.off + k * stride, size, False)
                            self.write_cell(st, o, s, p.off + k * stride, size,
                                            z3.If(t == k, ptr_term(v), ptr_term(old)))
                        return
                raise Unsupported("symbolic store into %s" % o.name)
            p = P(o, ov if ov < 1 << 63 else ov - (1 << 64))
        self.write_cell(st, o, s, p.off, size, v)

    def write_cell(self, st, o, s, off, size, v):
        self.log(st, (o.id, off, size))
        for k in [k for k, c in s.cells.items() if not (k + c[0] <= off or off + size <= k)]:
            c = s.cells[k]
            if k >= off and k + c[0] <= off + size:
                del s.cells[k]
                continue
            x = c[1]
            if is_ptr(x):
                x = ptr_term(x)
            if isinstance(x, z3.BoolRef):
                x = b2bv(x, 8)
            del s.cells[k]
            for b in range(c[0]):
                if not (off <= k + b < off + size):
                    s.cells[k + b] = (1, z3.Extract(b * 8 + 7, b * 8, x))
        s.cells[off] = (size, v)

    def log(self, st, e):
        if st.wlog is not None:
            st.wlog.add(e)

    def setghost(self, st, key, val):
        self.log(st, ('g', key))
        st.ghost[key] = val

    def memset(self, st, dst, byte, n):
        p = self.materialise(st, dst)
        nv = cval(n)
        if nv == 0:
            return
        if p.obj.kind == 'bytes':
            self.check_access(st, p, n, 'memset')
            s = self.wst(st, p.obj)
            self.log(st, (p.obj.id, 'arr'))
            s.arr = ACopy(s.arr, p.offterm(), n, AConst(byte), c64(0))
            return
        if p.obj.kind == 'elems' and nv is not None and nv % 8 == 0 and nv <= 4096:
            for k in range(0, nv, 8):
                self.store(st, p.add(k), ('i', 64), z3.simplify(z3.Concat(*([byte] * 8))))
            return
        if nv is None or p.sym:
            raise Unsupported("memset symbolic")
        if nv > 1 << 14 and p.obj.memo.get('bulk'):
            p.obj.memo['bulk'](self, st, p, byte, nv)
            return
        self.check_access(st, p, nv, 'memset')
        bv = byte
        off = p.off
        s = self.wst(st, p.obj)
        while nv:
            sz = 8 if nv >= 8 and off % 8 == 0 else 4 if nv >= 4 and off % 4 == 0 else 1
            self.write_cell(st, p.obj, s, off, sz, z3.simplify(z3.Concat(*([bv] * sz))) if sz > 1 else bv)
            off += sz
            nv -= sz

    def memcpy(self, st, dst, src, n):
        nv = cval(n)
        if nv == 0:
            return
        d = self.materialise(st, dst)
        s_ = self.materialise(st, src)
        self.check_access(st, d, n if nv is None else nv, 'memcpy-dst')
        self.check_access(st, s_, n if nv is None else nv, 'memcpy-src')
        do, so = d.obj, s_.obj
        if do.const:
            self.oblige(st, FALSE, "write-to-const")
            raise Stop()
        ss = self.ost(st, so)
        if do.kind == 'bytes':
            ds = self.wst(st, do)
            self.log(st, (do.id, 'arr'))
            if so.kind == 'bytes':
                ds.arr = ACopy(ds.arr, d.offterm(), n, ss.arr, s_.offterm())
            elif so.kind == 'cells':
                base = s_.off
                if nv is not None:
                    bs = [self.bytes_of(st, so, ss, base + k) for k in range(nv)]
                    src_arr = AFn(lambda i, bs=bs: _sel(bs, i))
                    ds.arr = ACopy(ds.arr, d.offterm(), n, src_arr, c64(0))
                else:
                    # symbolic length out of a struct of known size
                    if not isinstance(so.size, int) or s_.sym and cval(s_.offterm()) is None and so.size > 256:
                        raise Unsupported("memcpy symbolic length from %s" % so.name)
                    bs = [self.bytes_of(st, so, ss, k) for k in range(so.size)]
                    src_arr = AFn(lambda i, bs=bs: _sel(bs, i))
                    ds.arr = ACopy(ds.arr, d.offterm(), n, src_arr, s_.offterm())
            elif so.kind == 'elems':
                raise Unsupported("memcpy elems->bytes")
            return
        if do.kind == 'cells' and so.kind in ('cells', 'bytes'):
            if nv is None or d.sym:
                if isinstance(do.size, int) and do.size <= 64 and (so.kind == 'bytes' or isinstance(so.size, int)):
                    # byte-wise conditional copy
                    ds = self.wst(st, do)
                    doff, soff = d.offterm(), s_.offterm()
                    news = []
                    if so.kind == 'cells':
                        sb = [self.bytes_of(st, so, ss, k) for k in range(so.size)]
                        sget = lambda i: _sel(sb, i)
                    else:
                        sget = ss.arr.get
                    for b in range(do.size):
                        old = self.bytes_of(st, do, ds, b)
                        inr = z3.ULT(c64(b) - doff, n)
                        news.append(z3.simplify(z3.If(inr, sget(z3.simplify(c64(b) - doff + soff)), old)))
                    for b in range(do.size):
                        self.write_cell(st, do, ds, b, 1, news[b])
                    return
                raise Unsupported("memcpy symbolic into struct %s" % do.name)
            if s_.sym and so.kind == 'cells':
                raise Unsupported("memcpy sym src")
            ds = self.wst(st, do)
            off = d.off
            # clear overlapped cells
            self.log(st, (do.id, 'range', off, nv))
            marker_cells = [k for k, c in ds.cells.items() if not (k + c[0] <= off or off + nv <= k)]
            for k in marker_cells:
                c = ds.cells[k]
                if k >= off and k + c[0] <= off + nv:
                    del ds.cells[k]
                else:
                    x = ptr_term(c[1])
                    if isinstance(x, z3.BoolRef):
                        x = b2bv(x, 8)
                    del ds.cells[k]
                    for b in range(c[0]):
                        if not (off <= k + b < off + nv):
                            ds.cells[k + b] = (1, z3.Extract(b * 8 + 7, b * 8, x))
            if so.kind == 'cells':
                snap = ss.copy()

                def rd(eng, st2, o2, sz, isptr, so=so, snap=snap):
                    return eng.read_cell(st2, so, snap, o2, sz, isptr)
                for k, c in snap.cells.items():
                    if s_.off <= k and k + c[0] <= s_.off + nv:
                        ds.cells[off + k - s_.off] = c
                ds.ranges = ((off, nv, so, s_.off, rd),) + ds.ranges
            else:
                arr = ss.arr
                so0 = s_.offterm()

                def rd(eng, st2, o2, sz, isptr, arr=arr, so0=so0):
                    if sz == 1:
                        return arr.get(z3.simplify(so0 + o2))
                    return z3.simplify(z3.Concat(*[arr.get(z3.simplify(so0 + (o2 + k))) for k in range(sz - 1, -1, -1)]))
                ds.ranges = ((off, nv, so, 0, rd),) + ds.ranges
            # copy ghosts for nested containers is not done here
            return
        if do.kind == 'cells' and so.kind == 'elems':
            if nv is None:
                raise Unsupported("memcpy elems sym")
            idx, r = self.elem_split(s_)
            snap = ss.copy()
            ds = self.wst(st, do)
            off = d.off
            if nv != so.stride or r:
                raise Unsupported("memcpy partial elem")
            self.log(st, (do.id, 'range', off, nv))
            for k in [k for k, c in ds.cells.items() if off <= k < off + nv]:
                del ds.cells[k]

            def rd(eng, st2, o2, sz, isptr, so=so, snap=snap, idx=idx):
                return eng.elem_field(st2, so, snap, o2, sz).get(idx)
            ds.ranges = ((off, nv, so, 0, rd),) + ds.ranges
            return
        if do.kind == 'elems' and so.kind in ('cells', 'elems'):
            idx, r = self.elem_split(d)
            if nv is None or r:
                raise Unsupported("memcpy into elems")
            lay = getattr(do, 'layout', None)
            if not lay:
                raise Unsupported("memcpy into elems without layout %s" % do.name)
            ds = self.wst(st, do)
            for fo, fs in lay:
                if so.kind == 'cells':
                    v = self.read_cell(st, so, ss, s_.off + fo, fs, False)
                else:
                    i2, r2 = self.elem_split(s_)
                    v = self.elem_field(st, so, ss, r2 + fo, fs).get(i2)
                a = self.elem_field(st, do, ds, fo, fs)
                self.log(st, (do.id, 'ef', fo, fs))
                ds.fields[fo] = (fs, AStore(a, idx, ptr_term(v)))
            return
        raise Unsupported("memcpy %s<-%s" % (do.kind, so.kind))

    def bytes_of(self, st, o, s, k):
        v = self.read_cell(st, o, s, k, 1, False)
        if isinstance(v, z3.BoolRef):
            v = b2bv(v, 8)
        return ptr_term(v)

    # -- solver ------------------------------------------------------------
    def _insts(self, st, extra=()):
        out = []
        if st.hyps:
            terms = []
            seen = set()
            for t in list(st.hints) + list(extra):
                t = z3.simplify(t)
                k = t.get_id()
                if k not in seen:
                    seen.add(k)
                    terms.append(t)
            for lab, fn in st.hyps:
                if lab.startswith('#2'):
                    for t in terms:
                        for u in terms:
                            ck = (id(fn), t.get_id(), u.get_id())
                            c = self._inst_cache.get(ck)
                            if c is None:
                                c = self._inst_cache[ck] = (z3.simplify(fn(t, u)), fn, t, u)
                            if not z3.is_true(c[0]):
                                out.append(c[0])
                    continue
                for t in terms:
                    ck = (id(fn), t.get_id())
                    c = self._inst_cache.get(ck)
                    if c is None:
                        c = (z3.simplify(fn(t)), fn, t)
                        self._inst_cache[ck] = c
                    x = c[0]
                    if not z3.is_true(x):
                        out.append(x)
        return out

    def vars_of(self, t):
        """uninterpreted constants of a term (and functions applied to numerals only)"""
        k = t.get_id()
        r = self._vars.get(k)
        if r is not None:
            return r[0]
        out, seen, work = set(), set(), [t]
        while work:
            x = work.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                continue
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(self.vars_of(y) for y in x.children()):
                out.add(x.decl().name())
            work.extend(x.children())
        self._vars[k] = (frozenset(out), t)
        return self._vars[k][0]

    def slice(self, asserts):
        """the assertions that share variables, transitively, with the last one"""
        if not asserts:
            return asserts
        goal = asserts[-1]
        have = set(self.vars_of(goal))
        if not have:
            return asserts
        rest = [(a, self.vars_of(a)) for a in asserts[:-1]]
        keep = [False] * len(rest)
        while True:
            ch = False
            for n, (a, v) in enumerate(rest):
                if not keep[n] and (not v or not have.isdisjoint(v)):
                    keep[n] = True
                    have |= v
                    ch = True
            if not ch:
                break
        return [a for n, (a, v) in enumerate(rest) if keep[n]] + [goal]

    def query(self, asserts, timeout=None, fallback=True, feas=False):
        """returns ('unsat'|'sat'|'unknown', model, solver).  Unsatisfiability of a slice of the assertions is enough; anything
        else is decided on all of them (for a feasibility query the rest is satisfiable by itself)"""
        self.nqueries += 1
        simp = []
        for a in asserts:
            for x, y in self.rewrites:
                a = z3.simplify(z3.substitute(z3.simplify(a), (z3.simplify(x), y)))
            simp.append(a)
        sl = self.slice(simp) if self.slicing else simp
        key = (frozenset(a.get_id() for a in sl), fallback)
        c = self._qcache.get(key)
        if c is not None and (c[0][0] == 'unsat' or (feas and c[0][0] == 'sat')):
            return c[0]
        r = c[0] if c is not None and len(sl) < len(simp) else self._query(sl, timeout, fallback)
        self._qcache[key] = (r, sl)
        if r[0] == 'unsat' or len(sl) == len(simp) or (feas and r[0] == 'sat') or (r[0] == 'unknown' and not fallback):
            return r
        return self._query(simp, timeout, fallback)

    def _query(self, asserts, timeout=None, fallback=True):
        t0 = time.time()
        s = z3.Solver()
        full = timeout or self.timeout
        s.set('timeout', min(full, self.first_timeout) if fallback else full)
        for a in asserts:
            s.add(a)
        r = s.check()
        dt = time.time() - t0
        self.solver_time += dt

        def dump(r, who, d):
            if QLOG:
                import sys as _s
                ff = _s._getframe(2)
                nmz = []
                for _ in range(5):
                    nmz.append(ff.f_code.co_name)
                    ff = ff.f_back
                open(QLOG, 'a').write('%.2f %d:%s %s %s %d %s\n' % (d, self.silent, '<'.join(nmz), r, who, len(asserts), str(asserts[-1])[:160].replace('\n', ' ')))
            if DUMP and d > float(DUMP):
                n = next(_ctr)
                open('/tmp/q_%s_%d.smt2' % (re.sub(r'\W', '_', self.cur), n), 'w').write('; %s %s %.1fs\n' % (r, who, d) + s.to_smt2())
        if r != z3.unknown or not fallback or QLOG:
            dump(r, 'z3', dt)
        if r == z3.unsat:
            return 'unsat', None, 'z3'
        if r == z3.sat:
            return 'sat', s.model(), 'z3'
        if not fallback:
            return 'unknown', None, 'z3'
        r2, who = self.portfolio(s, full)
        d2 = time.time() - t0 - dt
        self.solver_time += d2
        dump(r2, who, d2)
        return r2, None, who

    def portfolio(self, s, ms):
        """z3 (bit-blasting) and cvc5 (integer translation) race on the query; first definite answer wins"""
        import tempfile
        txt = re.sub(r'(?m)^\(set-info.*$', '', s.to_smt2())
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write("(set-logic ALL)\n" + txt)
            fn = f.name
        cmds = [('cvc5(bv-as-int)', ['cvc5', '--tlimit=%d' % ms, '--solve-bv-as-int=bitwise', fn]),
                ('z3', ['z3', '-T:%d' % max(1, ms // 1000), fn])]
        ps = []
        try:
            for who, c in cmds:
                ps.append((who, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            end = time.time() + ms / 1000.0 + 2
            live = list(ps)
            while live and time.time() < end:
                for x in list(live):
                    if x[1].poll() is not None:
                        live.remove(x)
                        o = (x[1].stdout.read().strip().split('\n') or [''])[0]
                        if o in ('sat', 'unsat'):
                            return o, x[0]
                time.sleep(0.01)
            return 'unknown', 'z3+cvc5'
        finally:
            for who, p in ps:
                if p.poll() is None:
                    p.kill()
                p.wait()
                p.stdout.close()
            os.unlink(fn)

    def feasible(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r, _, _ = self.query(st.pc + (self._insts(st) if self.feas_full else []) + [c], timeout=3000, feas=True)
        return r != 'unsat'

    def prove(self, st, goal, hints=()):
        """does pc entail goal?  returns Result-like (status, model, dt, solver)"""
        t0 = time.time()
        extra = list(hints)
        if isinstance(goal, ForAll):
            k = fresh('k', 64)
            g = goal.fn(k)
            extra.append(k)
            extra += [h(k) if callable(h) else h for h in goal.hints]
        else:
            g = goal
        if isinstance(g, bool):
            g = z3.BoolVal(g)
        gs = z3.simplify(g)
        if z3.is_true(gs):
            return 'proved', None, 0.0, 'simplifier'
        parts = conjuncts(g) if self.split_goals else []
        if len(parts) > 1:
            # a conjunction is proved conjunct by conjunct
            by = 'simplifier'
            for x in parts:
                r = self.prove(st, x, extra)
                if r[0] != 'proved':
                    if DBG:
                        print('DBG conjunct %s: %s' % (r[0], str(x)[:400].replace('\n', ' ')))
                    return r[0], r[1], time.time() - t0, r[3]
                by = r[3] if r[3] != 'simplifier' else by
            return 'proved', None, time.time() - t0, by
        if st.hyps and not isinstance(goal, ForAll):
            r, m, sv = self.query(st.pc + [Not(gs)], timeout=self.quick_ms if self.quick else 1500, fallback=False)
            if r == 'unsat':
                return 'proved', None, time.time() - t0, sv
        if self.quick:
            r, m, sv = self.query(st.pc + self._insts(st, extra) + [Not(gs)], timeout=self.quick_ms, fallback=False)
            return ('proved' if r == 'unsat' else 'unknown'), None, time.time() - t0, sv
        base = st.pc + self._insts(st, extra) + [Not(gs)]
        r, m, sv = self.query(base)
        dt = time.time() - t0
        return {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r], m, dt, sv

    def oblige(self, st, goal, name, hints=(), sync=False):
        if self.silent:
            if self.silent_check(st, goal):
                return True
            return False
        if self.deadline and time.time() > self.deadline:
            self.results.append(Result(self.cur + '/' + name, 'unknown', detail='time budget exhausted', st=st))
            return False
        where = '>'.join(self.short(f) for f in self.current_fn[-3:])
        nm = self.cur + '/' + name + (('@' + where) if where else '')
        if self.parallel and not sync:
            r = self.prove_quick(st, goal, hints)
            if r is None:
                res = Result(nm, 'pending')
                self.results.append(res)
                self.pending.append((res, self.par.submit(lambda: self._prove_dict(st, goal, hints))))
                return True
            status, m, dt, sv = r
        else:
            status, m, dt, sv = self.prove(st, goal, hints)
        self.results.append(Result(nm, status, m, dt, sv, st=st if status != 'proved' else None))
        return status == 'proved'

    def _prove_dict(self, st, goal, hints=()):
        n0, t0 = self.nqueries, self.solver_time
        status, m, dt, sv = self.prove(st, goal, hints)
        ms = ''
        if m is not None:
            ms = '; '.join(str(x) + '=' + str(m[x]) for x in list(m.decls())[:40] if x.arity() == 0)[:3000]
        return dict(status=status, t=dt, solver=sv, model=ms, nq=self.nqueries - n0, st=self.solver_time - t0, detail='')

    def prove_quick(self, st, goal, hints=()):
        """a short attempt in this process: the result of prove when it is 'proved', else None"""
        sv = (self.timeout, self.first_timeout, self.quick)
        self.timeout, self.first_timeout, self.quick = self.quick_ms, self.quick_ms, True
        try:
            r = self.prove(st, goal, hints)
        finally:
            self.timeout, self.first_timeout, self.quick = sv
        return r if r[0] == 'proved' else None

    def gather(self):
        """collect the obligations that were handed to prover processes"""
        for res, tok in self.pending:
            d = self.par.result(tok)
            res.status, res.time_s, res.solver, res.detail = d['status'], d['t'], d['solver'], d['detail']
            res.model_s = d['model']
            self.nqueries += d.get('nq', 0)
            self.solver_time += d.get('st', 0.0)
        self.pending = []

    def prove_batch(self, items):
        """[(state, goal)] -> [proved?], in parallel"""
        out = [False] * len(items)
        toks = []
        for n, (s, g) in enumerate(items):
            r = self.prove_quick(s, g) if self.parallel else self.prove(s, g)
            if r is not None and r[0] == 'proved':
                out[n] = True
            elif self.parallel:
                toks.append((n, self.par.submit(lambda s=s, g=g: self._prove_dict(s, g))))
        for n, tok in toks:
            d = self.par.result(tok)
            out[n] = d['status'] == 'proved'
            self.nqueries += d.get('nq', 0)
            self.solver_time += d.get('st', 0.0)
        return out

    def silent_check(self, st, goal):
        # during loop discovery obligations are not recorded; they are re-raised in the final pass
        return True

    def short(self, f):
        d = self.demangled(f)
        d = re.sub(r'\(.*$', '', d)
        return d.split('::')[-1] if '::' in d else d

    def off(self, name):
        """a constant the wrapper translation unit emits (field offset, size, enumerator)"""
        g = self.m.gdef(name)
        if g is None or g[1] is None:
            raise Unsupported('constant %s' % name)
        return 0 if g[1][0] == 'zero' else g[1][1]

    def set_vptr(self, st, obj, cls, off=0, slot=16):
        """store the address of cls's primary vtable (static type of the object under contract)"""
        want = 'vtable for ' + cls
        for g in self.m._gl:
            if g.startswith('_ZTV') and self.demangled(g) == want:
                self.store(st, P(obj, off), ('ptr',), self.global_ptr(st, g).add(slot))
                return
        raise Unsupported('no ' + want)

    def proved(self, st, goal):
        """a cut: is the fact derivable here?  (used to restate memory contents; nothing is assumed when it is not)"""
        return self.prove(st, goal)[0] == 'proved'

    def rewrite_lemma(self, st, x, y, name):
        """prove x == y under st (an initial state), then replace x by y in every later query"""
        if self.oblige(st, x == y, 'lemma:' + name, sync=True):
            self.rewrites.append((x, y))

    def cover(self, st, name='end'):
        """vacuity guard: the hypotheses of this state must be satisfiable (not refutable)"""
        r, _, _ = self.query(st.pc + self._insts(st), timeout=15000)
        if r == 'unsat':
            self.results.append(Result('%s/cover:%s' % (self.cur, name), 'refuted', detail='contradictory hypotheses: vacuous'))
        else:
            self.covers += 1

    def ok(self):
        self.gather()
        return all(r.status == 'proved' for r in self.results)

    # -- instruction semantics ------------------------------------------------
    def binop(self, op, a, b):
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op == 'xor':
                if z3.is_true(b):
                    return z3.simplify(Not(a))
                return z3.Xor(a, b)
            if op == 'add' or op == 'sub':
                return z3.Xor(a, b)
            raise Unsupported("bool op " + op)
        if isinstance(a, P) or isinstance(b, P):
            # integer arithmetic on pointers
            if op == 'sub' and isinstance(a, P) and isinstance(b, P) and a.obj is b.obj:
                return z3.simplify(a.offterm() - b.offterm())
            if op == 'add' and isinstance(a, P) and not isinstance(b, P):
                return a.addsym(b, 1)
            a, b = ptr_term(a), ptr_term(b)
        if op == 'and' and isinstance(a, FnP) and is_c(b) and cval(b) == 1:
            return BV(0, 64)                     # functions are at even addresses: not a virtual member pointer
        a, b = ptr_term(a), ptr_term(b)
        w = a.size()
        r = None
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << b
        elif op == 'lshr':
            r = z3.LShR(a, b)
        elif op == 'ashr':
            r = a >> b
        elif op == 'udiv':
            r = z3.UDiv(a, b)
        elif op == 'urem':
            r = z3.URem(a, b)
        elif op == 'sdiv':
            v = cval(b)
            if v is not None and v and (v & (v - 1)) == 0 and v < (1 << (w - 1)) and False:
                r = a
            r = a / b
        elif op == 'srem':
            r = z3.SRem(a, b)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            f = z3.Function(op + str(w), a.sort(), a.sort(), a.sort())
            r = f(a, b)
        else:
            raise Unsupported(op)
        if is_c(a) and is_c(b):
            r = z3.simplify(r)
        elif is_c(b) or is_c(a):
            r = z3.simplify(r)
        return r

    def ptr_eq(self, st, a, b):
        if isinstance(a, FnP) and isinstance(b, FnP):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, FnP) or isinstance(b, FnP):
            x, y = (a, b) if isinstance(a, FnP) else (b, a)
            if isinstance(y, P) or cval(y) == 0:
                return FALSE
            return ptr_term(x) == y
        if isinstance(a, P) and isinstance(b, P):
            if a.obj is b.obj:
                return z3.simplify(a.offterm() == b.offterm())
            if a.obj.lazy or b.obj.lazy or not a.obj.nonnull or not b.obj.nonnull:
                return z3.simplify(a.addrterm() == b.addrterm())
            return FALSE
        if isinstance(b, P):
            a, b = b, a
        if isinstance(a, P):
            if cval(b) == 0:
                if a.obj.nonnull:
                    return FALSE
                if getattr(a.obj, 'isnull', False):
                    return z3.simplify(a.offterm() == 0)
                return a.addrterm() == 0 if (a.off or a.sym) else a.obj.addr == 0
            return z3.simplify(a.addrterm() == b)
        return z3.simplify(a == b)

    def icmp(self, st, pred, a, b):
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if pred == 'eq':
                return z3.simplify(a == b)
            if pred == 'ne':
                return z3.simplify(a != b)
            a, b = b2bv(a, 8), b2bv(b, 8)
            if pred[0] == 's':
                a, b = -a, -b
        if is_ptr(a) or is_ptr(b):
            if pred == 'eq':
                return self.ptr_eq(st, a, b)
            if pred == 'ne':
                return z3.simplify(Not(self.ptr_eq(st, a, b)))
            if isinstance(a, P) and isinstance(b, P) and a.obj is b.obj:
                a, b = a.offterm(), b.offterm()
                # offsets inside one object: compare as signed distances
                d = {'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}
                return z3.simplify(d[pred])
            a, b = ptr_term(a), ptr_term(b)
        d = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}
        return z3.simplify(d[pred]())

    def cast(self, st, op, fty, v, tty):
        t = self.m.resolve(tty)
        if op == 'bitcast' or op == 'addrspacecast':
            return v
        if op == 'ptrtoint':
            return v
        if op == 'inttoptr':
            return v
        w = t[1] if t[0] == 'i' else {'double': 64, 'float': 32, 'x86_fp80': 80}.get(t[0])
        if op in ('zext', 'sext'):
            if isinstance(v, z3.BoolRef):
                if op == 'zext':
                    return b2bv(v, w)
                return Ite(v, BV(-1, w), BV(0, w))
            v = ptr_term(v)
            d = w - v.size()
            return z3.simplify(z3.ZeroExt(d, v) if op == 'zext' else z3.SignExt(d, v))
        if op == 'trunc':
            v = ptr_term(v)
            if w == 1:
                return z3.simplify(z3.Extract(0, 0, v) == 1)
            return z3.simplify(z3.Extract(w - 1, 0, v))
        # floating point conversions: uninterpreted
        if isinstance(v, z3.BoolRef):
            v = b2bv(v, 8)
        f = z3.Function("%s_%d_%d" % (op, v.size(), w), v.sort(), z3.BitVecSort(w))
        return f(v)

    # -- running functions --------------------------------------------------------
    def call(self, st, name, args, rty=None):
        """execute (contract or body); returns list of (state, value)"""
        name = self.m.aliases.get(name, name)
        c = self.lookup_contract(name)
        if c is not None:
            h, tr, lab = c
            self.used = getattr(self, 'used', set())
            self.used.add((lab, tr, self.demangled(name)))
            r = h(self, st, args, name)
            return self._norm(st, r)
        f = self.m.functions.get(name)
        if f is None or f.decl:
            raise Unsupported("no contract for external %s" % self.demangled(name)[:200])
        if st.depth > self.max_depth:
            raise Unsupported("inline depth")
        self.inlined.add(self.demangled(name))
        return self.run(st, f, args)

    def _norm(self, st, r):
        if isinstance(r, list):
            return [x if isinstance(x, tuple) else (x, None) for x in r]
        return [(st, r)]

    def run(self, st, f, args):
        """inline execution of a function body"""
        self.current_fn.append(f.name)
        st.depth += 1
        try:
            env = {}
            for (ty, nm, at), a in zip(f.params, args):
                if 'byval' in at:
                    o = self.new_obj(st, 'byval_' + nm, 'cells', size=self.m.sizeof(at['byval']))
                    self.memcpy(st, P(o), a, c64(self.m.sizeof(at['byval'])))
                    a = P(o)
                env[nm] = a
            if f.varargs:
                env['...'] = args[len(f.params):]
            B = f.blocks
            out = self._explore([(st, env, f.entry, None, 0)], f, None)
            for s, v in out:
                s.depth -= 1
            return out
        finally:
            self.current_fn.pop()

    def _enter(self, st, env, f, blk, prev, work, loopctx, rets):
        """transfer control to block blk from prev (phi evaluation, loop handling)"""
        B = f.blocks
        loops = f.loops()
        # leaving / closing the loop being analysed
        if loopctx is not None:
            hdr, body, on_back, on_exit = loopctx
            if blk == hdr:
                # back edge
                env2 = self._phis(st, env, f, blk, prev)
                nk = '#n:' + hdr
                if nk in env2:
                    env2[nk] = z3.simplify(env2[nk] + 1)
                    env2['#n'] = env2[nk]
                on_back(st, env2)
                return
            if blk not in body:
                on_exit(st, env, blk, prev)
                return
        if blk in loops:
            pol = self.loop_policy(f, blk)
            if prev in loops[blk] and st.flags.get(('unrolled', f.name, blk, st.depth)):
                pol = ('unroll', self.auto_unroll + 1)
            if prev in loops[blk]:
                # back edge of an unrolled loop
                key = ('unroll', f.name, blk, st.depth)
                n = st.flags.get(key, 0) + 1
                if n > pol[1]:
                    if pol[0] == 'unroll':
                        # complete only if infeasible
                        self.oblige(st, FALSE, "unwind-bound(%d):%s" % (pol[1], self.short(f.name)))
                    else:
                        self.bounded.append((self.demangled(f.name), pol[1]))
                    return
                st.flags[key] = n
            else:
                if pol[0] == 'inv' and self.auto_unroll and self.try_unroll(st, env, f, blk, prev):
                    st.flags[('unrolled', f.name, blk, st.depth)] = True
                    st.flags[('unroll', f.name, blk, st.depth)] = 0
                elif pol[0] == 'inv':
                    self.do_loop(st, env, f, blk, prev, work, rets, loopctx)
                    return
                st.flags[('unroll', f.name, blk, st.depth)] = 0
        env2 = self._phis(st, env, f, blk, prev)
        work.append((st, env2, blk, prev, 0))

    def loop_policy(self, f, blk):
        d = self.demangled(f.name)
        for rx, n, kind in self.unroll:
            if re.search(rx, d):
                return (kind, n)
        return ('inv', 0)

    def _phis(self, st, env, f, blk, prev):
        new = {}
        for i in f.blocks[blk]:
            if i.op != 'phi':
                break
            ty, inc = i.a
            for v, p in inc:
                if p == prev:
                    new[i.res] = self.val(st, env, ty, v)
                    break
            else:
                raise Unsupported("phi without incoming")
        env2 = dict(env)
        env2.update(new)
        return env2

    def _step(self, st, env, blk, prev, ip, f, B, loops, work, rets, loopctx):
        ins = B[blk]
        n = len(ins)
        while ip < n:
            i = ins[ip]
            op = i.op
            a = i.a
            if op == 'phi':
                ip += 1
                continue
            if op == 'call':
                r = self._call(st, env, i, f)
                if len(r) == 1:
                    st, v = r[0]
                    if i.res is not None:
                        env[i.res] = v
                    ip += 1
                    continue
                for s2, v in r:
                    e2 = dict(env)
                    if i.res is not None:
                        e2[i.res] = v
                    work.append((s2, e2, blk, prev, ip + 1))
                return
            if op == 'load':
                if a[2] and self.interfere is not None:
                    self.interfere(self, st, self.val(st, env, ('ptr',), a[1]))
                env[i.res] = self.load(st, self.val(st, env, ('ptr',), a[1]), a[0])
            elif op == 'store':
                if self.on_store is not None:
                    self.on_store(self, st, self.val(st, env, ('ptr',), a[2]), self.val(st, env, a[0], a[1]))
                self.store(st, self.val(st, env, ('ptr',), a[2]), a[0], self.val(st, env, a[0], a[1]))
            elif op == 'gep':
                base = self.val(st, env, ('ptr',), a[1][0][1])
                idx = [(t, self.val(st, env, t, v)) for t, v in a[1][1:]]
                env[i.res] = self.gep(st, a[0], base, idx)
            elif op == 'bin':
                o, ty, x, y, fl = a
                xv, yv = self.val(st, env, ty, x), self.val(st, env, ty, y)
                if o in ('sdiv', 'udiv', 'srem', 'urem'):
                    if cval(yv) is None or cval(yv) == 0:
                        self.oblige(st, yv != 0, "div-by-zero")
                if 'nsw' in fl and o in ('add', 'sub', 'mul') and isinstance(xv, z3.BitVecRef) and \
                        isinstance(yv, z3.BitVecRef) and self.check_overflow:
                    self.check_nsw(st, o, xv, yv)
                env[i.res] = self.binop(o, xv, yv)
            elif op == 'icmp':
                pred, ty, x, y = a
                env[i.res] = self.icmp(st, pred, self.val(st, env, ty, x), self.val(st, env, ty, y))
            elif op == 'fcmp':
                pred, ty, x, y = a
                xv, yv = self.val(st, env, ty, x), self.val(st, env, ty, y)
                env[i.res] = z3.Function("fcmp_%s_%d" % (pred, xv.size()), xv.sort(), xv.sort(), z3.BoolSort())(xv, yv)
            elif op == 'cast':
                o, fty, v, tty = a
                env[i.res] = self.cast(st, o, fty, self.val(st, env, fty, v), tty)
            elif op == 'select':
                cty, cv, ty, x, y = a
                c = self.val(st, env, cty, cv)
                xv, yv = self.val(st, env, ty, x), self.val(st, env, ty, y)
                c = z3.simplify(c)
                if z3.is_true(c):
                    env[i.res] = xv
                elif z3.is_false(c):
                    env[i.res] = yv
                elif is_ptr(xv) or is_ptr(yv):
                    s2 = st.copy()
                    if self.feasible(st, Not(c)):
                        s2.assume(Not(c))
                        e2 = dict(env)
                        e2[i.res] = yv
                        work.append((s2, e2, blk, prev, ip + 1))
                    if not self.feasible(st, c):
                        return
                    st.assume(c)
                    env[i.res] = xv
                else:
                    env[i.res] = Ite(c, xv, yv)
            elif op == 'alloca':
                ty, nn = a
                sz = self.m.sizeof(ty)
                if nn is not None:
                    k = cval(self.val(st, env, ('i', 64), nn))
                    if k is None:
                        raise Unsupported("vla")
                    sz *= k
                rt = self.m.resolve(ty)
                if rt[0] == 'arr' and rt[2] == ('i', 8):
                    o = self.new_obj(st, 'buf_' + i.res, 'bytes', size=sz)
                else:
                    o = self.new_obj(st, 'loc_' + i.res, 'cells', size=sz)
                o.local = True
                env[i.res] = P(o)
            elif op == 'br':
                self._enter(st, env, f, a[0], blk, work, loopctx, rets)
                return
            elif op == 'condbr':
                c = z3.simplify(self.val(st, env, ('i', 1), a[0]))
                if z3.is_true(c):
                    self._enter(st, env, f, a[1], blk, work, loopctx, rets)
                    return
                if z3.is_false(c):
                    self._enter(st, env, f, a[2], blk, work, loopctx, rets)
                    return
                ft = self.feasible(st, c)
                ff = self.feasible(st, Not(c))
                if ft and ff:
                    s2 = st.copy()
                    s2.assume(Not(c))
                    st.assume(c)
                    self._enter(s2, env, f, a[2], blk, work, loopctx, rets)
                    self._enter(st, dict(env), f, a[1], blk, work, loopctx, rets)
                elif ft:
                    st.assume(c)
                    self._enter(st, env, f, a[1], blk, work, loopctx, rets)
                elif ff:
                    st.assume(Not(c))
                    self._enter(st, env, f, a[2], blk, work, loopctx, rets)
                return
            elif op == 'switch':
                ty, v, d, cs = a
                x = self.val(st, env, ty, v)
                cx = cval(x)
                if cx is not None:
                    w = x.size()
                    for k, l in cs:
                        if (k & ((1 << w) - 1)) == cx:
                            self._enter(st, env, f, l, blk, work, loopctx, rets)
                            return
                    self._enter(st, env, f, d, blk, work, loopctx, rets)
                    return
                by = {}
                for k, l in cs:
                    by.setdefault(l, []).append(k)
                conds = []
                for l, ks in by.items():
                    c = Or(*[x == k for k in ks])
                    conds.append(c)
                    if self.feasible(st, c):
                        s2 = st.copy()
                        s2.assume(c)
                        self._enter(s2, dict(env), f, l, blk, work, loopctx, rets)
                c = And(*[Not(q) for q in conds])
                if self.feasible(st, c):
                    s2 = st.copy()
                    s2.assume(c)
                    self._enter(s2, dict(env), f, d, blk, work, loopctx, rets)
                return
            elif op == 'ret':
                v = None if a[0][0] == 'void' else self.val(st, env, a[0], a[1])
                rets.append((st, v))
                return
            elif op == 'unreachable':
                return
            elif op == 'extractvalue':
                v = self.val(st, env, a[0], a[1])
                for k in a[2]:
                    v = v.vals[k]
                env[i.res] = v
            elif op == 'insertvalue':
                v = self.val(st, env, a[0], a[1])
                e = self.val(st, env, a[2], a[3])
                env[i.res] = self._insert(v, e, a[4])
            elif op == 'freeze':
                env[i.res] = self.val(st, env, a[0], a[1])
            elif op == 'fneg':
                v = self.val(st, env, a[0], a[1])
                env[i.res] = z3.Function('fneg%d' % v.size(), v.sort(), v.sort())(v)
            elif op == 'atomicrmw':
                o, p, ty, v = a
                pv = self.val(st, env, ('ptr',), p)
                if self.interfere is not None:
                    self.interfere(self, st, pv)
                old = self.load(st, pv, ty)
                x = self.val(st, env, ty, v)
                nv = x if o == 'xchg' else self.binop(o, old, x)
                self.store(st, pv, ty, nv)
                if self.after_swap is not None:
                    self.after_swap(self, st, pv, old, nv)
                env[i.res] = old
            elif op == 'cmpxchg':
                p, ty, x, y = a
                pv = self.val(st, env, ('ptr',), p)
                if self.interfere is not None:
                    self.interfere(self, st, pv)
                old = self.load(st, pv, ty)
                xv, yv = self.val(st, env, ty, x), self.val(st, env, ty, y)
                eq = self.icmp(st, 'eq', old, xv)
                self.store(st, pv, ty, Ite(eq, ptr_term(yv), ptr_term(old)))
                if self.after_cas is not None:
                    self.after_cas(self, st, pv, old, yv, eq)
                env[i.res] = Agg([old, eq])
            elif op == 'nop':
                pass
            else:
                raise Unsupported("instruction %s" % i)
            ip += 1
        raise Unsupported("fallthrough")

    check_overflow = False

    def check_nsw(self, st, o, x, y):
        w = x.size()
        if is_c(x) and is_c(y):
            return
        X, Y = z3.SignExt(w if o == 'mul' else 1, x), z3.SignExt(w if o == 'mul' else 1, y)
        r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[o]
        lo = z3.BitVecVal(-(1 << (w - 1)), r.size())
        hi = z3.BitVecVal((1 << (w - 1)) - 1, r.size())
        self.oblige(st, And(r >= lo, r <= hi), "no-signed-overflow:%s" % o)

    def _insert(self, agg, e, idx):
        vals = list(agg.vals)
        if len(idx) == 1:
            vals[idx[0]] = e
        else:
            vals[idx[0]] = self._insert(vals[idx[0]], e, idx[1:])
        return Agg(vals)

    # -- calls --------------------------------------------------------------
    def _call(self, st, env, i, f):
        d = i.a
        args = []
        for ty, v, at in d['args']:
            if ty[0] == 'metadata':
                args.append(None)
            else:
                args.append(self.val(st, env, ty, v))
        cal = d['callee']
        if cal[0] == 'asm':
            return self._asm(st, d, args)
        if cal[0] == 'global':
            name = cal[1]
            if name.startswith('llvm.'):
                r = self._intrinsic(st, name, args, d)
                if self.after_memcpy is not None and name.startswith(('llvm.memcpy', 'llvm.memmove')):
                    return [(s, r) for s in self.after_memcpy(self, st, args[0], args[2])]
                return [(st, r)]
            name = self.m.aliases.get(name, name)
            # by value params need copying in contracts too: handlers get pointers
            return self.call(st, name, args, d['rty'])
        fp = self.val(st, env, ('ptr',), cal)
        if isinstance(fp, FnP):
            return self.call(st, fp.name, args, d['rty'])
        if self.indirect:
            r = self.indirect(self, st, fp, args, d)
            if r is not None:
                return self._norm(st, r)
        raise Unsupported("indirect call %s in %s" % (fp, self.demangled(f.name)[:100]))

    def _intrinsic(self, st, name, args, d):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = args[2]
            self.memcpy(st, args[0], args[1], n if n.size() == 64 else z3.ZeroExt(64 - n.size(), n))
            return None
        if name.startswith('llvm.memset'):
            n = args[2]
            self.memset(st, args[0], args[1], n)
            return None
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.va_',
                            'llvm.stacksave', 'llvm.stackrestore', 'llvm.donothing', 'llvm.invariant',
                            'llvm.prefetch')):
            return None if not name.startswith('llvm.stacksave') else c64(1)
        if name.startswith('llvm.expect'):
            return args[0]
        if name.startswith('llvm.trap'):
            self.oblige(st, FALSE, 'trap')
            raise Stop()
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.', name)
        if m:
            a, b = args
            c = {'umax': z3.UGE(a, b), 'umin': z3.ULE(a, b), 'smax': a >= b, 'smin': a <= b}[m.group(1)]
            return z3.If(c, a, b)
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow', name)
        if m:
            a, b = args
            w = a.size()
            ext = z3.ZeroExt if m.group(1) == 'u' else z3.SignExt
            A, B_ = ext(w, a), ext(w, b)
            r = {'add': A + B_, 'sub': A - B_, 'mul': A * B_}[m.group(2)]
            lo = z3.Extract(w - 1, 0, r)
            return Agg([lo, ext(w, lo) != r])
        if name.startswith('llvm.abs'):
            return z3.If(args[0] < 0, -args[0], args[0])
        if name.startswith('llvm.bswap'):
            a = args[0]
            n = a.size() // 8
            return z3.simplify(z3.Concat(*[z3.Extract(k * 8 + 7, k * 8, a) for k in range(n)]))
        if name.startswith('llvm.is.constant'):
            return FALSE
        if name.startswith('llvm.objectsize'):
            return c64(-1)
        m = re.match(r'llvm\.(fabs|floor|ceil|trunc|sqrt|fmuladd|rint|round)', name)
        if m:
            fn = z3.Function(name, *([a.sort() for a in args] + [args[0].sort()]))
            return fn(*args)
        if name.startswith(('llvm.umul', 'llvm.load', 'llvm.eh')):
            return fresh('eh', 32)
        raise Unsupported("intrinsic " + name)

    def _asm(self, st, d, args):
        t = d['asm'][0]
        if not re.search(r'\block\b', t) and 'xchg' not in t.replace('cmpxchg', ''):
            self.oblige(st, FALSE, 'read-modify-write-is-locked')
        if self.interfere is not None:
            self.interfere(self, st, [x for x in args if is_ptr(x)][0])
        ptr = args[0]
        ety = d['args'][0][2].get('elementtype', ('i', 32))
        old = self.load(st, ptr, ety)
        w = old.size() if z3.is_bv(old) else 64
        if 'xadd' in t:
            v = args[-1]
            self.store(st, ptr, ety, self.binop('add', old, v))
            return [(st, old)]
        if re.search(r'\binc[lqb]', t):
            self.store(st, ptr, ety, self.binop('add', old, BV(1, w)))
            return [(st, None)]
        if re.search(r'\bdec[lqb]', t):
            self.store(st, ptr, ety, self.binop('sub', old, BV(1, w)))
            return [(st, None)]
        if re.search(r'\badd[lqb]', t):
            self.store(st, ptr, ety, self.binop('add', old, args[-1]))
            return [(st, None)]
        if re.search(r'\bsub[lqb]', t):
            self.store(st, ptr, ety, self.binop('sub', old, args[-1]))
            return [(st, None)]
        if 'cmpxchg' in t:
            # "=*m,=r,={ax},*m,1,2": args = m, m, dest, cmp
            dest, cmp_ = args[-2], args[-1]
            eq = self.icmp(st, 'eq', old, cmp_)
            self.store(st, ptr, ety, Ite(eq, dest, old))
            if self.after_cas is not None:
                self.after_cas(self, st, ptr, old, dest, eq)
            return [(st, Agg([dest, old]))]
        if 'xchg' in t:
            v = [x for x in args if not is_ptr(x)]
            m = [x for x in args if is_ptr(x)][0]
            old = self.load(st, m, ety)
            self.store(st, m, ety, v[0])
            if self.after_swap is not None:
                self.after_swap(self, st, m, old, v[0])
            return [(st, old)]
        raise Unsupported("asm " + t)

    # -- loops ----------------------------------------------------------------
    auto_unroll = 0
    feas_full = False
    seqcheck = None
    after_cas = None     # fn(engine, state, ptr, old, new, hit): ghost update after a compare-and-swap
    after_swap = None    # fn(engine, state, ptr, old, new): ghost update after an exchange
    on_store = None      # fn(engine, state, ptr, new): before a plain store
    interfere = None     # fn(engine, state, ptr): what other threads may do just before a volatile read or atomic operation

    def try_unroll(self, st, env, f, hdr, prev):
        """does the loop provably finish within auto_unroll iterations (executed symbolically)?"""
        body = f.loops()[hdr]
        key = (f.name, hdr)
        if self._unroll_no.get(key, 0) >= 3:
            return False
        self.silent += 1
        try:
            front = [(st.copy(), self._phis(st, env, f, hdr, prev))]
            for _ in range(self.auto_unroll + 1):
                nxt = []
                for s, e in front:
                    self.exec_body(s, e, f, hdr, body, lambda s2, e2: nxt.append((s2, e2)), lambda *a: None)
                front = nxt
                if not front:
                    return True
                if len(front) > 6:
                    break
        except Unsupported:
            pass
        finally:
            self.silent -= 1
        self._unroll_no[key] = self._unroll_no.get(key, 0) + 1
        return False

    def do_loop(self, st, env, f, hdr, prev, work, rets, loopctx):
        body = f.loops()[hdr]
        entry_env = self._phis(st, env, f, hdr, prev)
        entry_env['#n:' + hdr] = c64(0)
        entry_env['#n'] = c64(0)
        phis = [(i.res, i.a[0]) for i in f.blocks[hdr] if i.op == 'phi']
        ctx = LoopCtx(self, f, hdr, st.copy(), entry_env, phis)
        mods = set()
        self.silent += 1
        try:
            # 1. discover modified locations
            for it in range(8):
                H, henv = self.havoc_state(st, entry_env, phis, mods, ctx)
                log = set()
                H.wlog = log
                known = set(H.mem)
                self.exec_body(H, henv, f, hdr, body, lambda s, e: None, lambda *a: None)
                new = {m for m in log if self.loop_visible(st, m)} - mods
                if not new:
                    break
                mods |= new
            else:
                raise Unsupported("loop write set does not stabilise")
            # 2. candidates
            cands = []
            for rx, gen in self.loopspecs:
                if re.search(rx, self.demangled(f.name)):
                    cands += gen(self, ctx)
            named = {c[0] for c in cands}
            cands += default_cands(self, ctx)
            H0, henv0 = self.havoc_state(st, entry_env, phis, mods, ctx)
            alive = []
            for nm, fn in cands:
                try:
                    g = fn(st, entry_env)
                except (Unsupported, KeyError, AttributeError, z3.Z3Exception) as e:
                    if DBG and nm in named:
                        print('DBG cand %s: init exception %r' % (nm, e))
                    continue
                r = self.prove(st, g)
                if r[0] == 'proved':
                    alive.append((nm, fn))
                elif DBG and nm in named:
                    print('DBG cand %s: init %s' % (nm, r[0]))
            def houdini(base, alive):
                while True:
                    H, henv = H0.copy(), dict(henv0)
                    H.wlog = None
                    self.assume_invs(H, henv, base + alive)
                    failed = set()
                    batch = []

                    def on_back(s, e):
                        for nm, fn in alive:
                            if nm in failed:
                                continue
                            try:
                                g = fn(s, e)
                            except (Unsupported, KeyError, AttributeError) as ex:
                                failed.add(nm)
                                if DBG and nm in named:
                                    print('DBG cand %s: preservation exception %r' % (nm, ex))
                                continue
                            r = self.prove_quick(s, g) if self.parallel else self.prove(s, g)
                            if self.parallel:
                                if r is None:
                                    batch.append((nm, self.par.submit(lambda s=s, g=g: self._prove_dict(s, g))))
                            elif r[0] != 'proved':
                                failed.add(nm)
                                if DBG and nm in named:
                                    print('DBG cand %s: not preserved (%s) %s' % (nm, r[0], str(r[1])[:1500] if len(r) > 1 and DBG == '2' else ''))

                    def settle():
                        for nm, tok in batch:
                            d = self.par.result(tok)
                            self.nqueries += d.get('nq', 0)
                            self.solver_time += d.get('st', 0.0)
                            if d['status'] != 'proved' and nm not in failed:
                                failed.add(nm)
                                if DBG and nm in named:
                                    print('DBG cand %s: not preserved (%s) %s' % (nm, d['status'], d['model'][:1500] if DBG == '2' else ''))
                    for H in self.cases(H, henv, ctx):
                        try:
                            self.exec_body(H, henv, f, hdr, body, on_back, lambda *a: None)
                        except Stop:
                            pass
                    settle()
                    if not failed:
                        return alive
                    alive = [c for c in alive if c[0] not in failed]
            quant = []
            scal = []
            for c in alive:
                try:
                    (quant if isinstance(c[1](st, entry_env), ForAll) else scal).append(c)
                except (Unsupported, KeyError, AttributeError):
                    pass
            if quant:
                s1 = houdini([], scal)
                keep = {c[0] for c in s1}
                lost = [c for c in scal if c[0] not in keep and c[0] in named]
                alive = s1 + houdini(s1, lost + quant)
            else:
                alive = houdini([], scal)
        finally:
            self.silent -= 1
        # 3. final, recorded pass
        H, henv = H0.copy(), dict(henv0)
        H.wlog = st.wlog
        if st.wlog is not None:
            for m in mods:
                st.wlog.add(m)
        self.assume_invs(H, henv, alive)
        self.loops_proved += 1
        nm = self.short(f.name)
        if not self.silent:
            self.loop_info.append((self.demangled(f.name), hdr, [c[0] for c in alive]))
            for c in alive:
                self.results.append(Result("%s/loop-invariant(%s):%s:init+preserved" % (self.cur, nm, c[0]),
                                           'proved', solver='z3'))
        exits = []
        for H in self.cases(H, henv, ctx):
            rr = self.exec_body(H, henv, f, hdr, body, lambda s, e: None,
                                lambda s, e, blk, pv: exits.append((s, e, blk, pv)))
            rets.extend(rr)
        for s, e, blk, pv in exits:
            self._enter(s, e, f, blk, pv, work, loopctx, rets)

    def cases(self, H, henv, ctx):
        """user case distinction at a loop head: [(condition, restate(state))]; that the conditions are exhaustive is an obligation"""
        for rx, fn in self.loopcases:
            if re.search(rx, self.demangled(ctx.f.name)):
                cs = fn(self, ctx, H, henv)
                if not cs:
                    continue
                self.oblige(H, Or(*[c for c, r in cs]), 'case-distinction-exhaustive')
                out = []
                for c, r in cs:
                    s = H.copy()
                    s.assume(c)
                    r(s)
                    out.append(s)
                return out
        return [H]

    def exec_body(self, H, henv, f, hdr, body, on_back, on_exit):
        """execute from the header (phis already set) until the back edge, a loop exit or a return"""
        return self._explore([(H, dict(henv), hdr, None, 0)], f, (hdr, body, on_back, on_exit))

    def _explore(self, work, f, loopctx):
        B = f.blocks
        loops = f.loops()
        rets = []
        n = 0
        while work:
            st, env, blk, prev, ip = work.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported("too many paths in %s" % self.demangled(f.name))
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted in %s" % self.demangled(f.name)[:80])
            try:
                self._step(st, env, blk, prev, ip, f, B, loops, work, rets, loopctx)
            except Stop:
                continue
        return rets

    def loop_visible(self, st, m):
        if m[0] == 'g':
            k = m[1]
            return k in st.ghost or True
        return m[0] in st.mem or m[0] in self._gids()

    def _gids(self):
        return {o.id for o in self.gobjs.values()}

    def assume_invs(self, H, henv, alive):
        for nm, fn in alive:
            g = fn(H, henv)
            if isinstance(g, ForAll):
                H.forall(g.fn, 'inv:' + nm)
                if g.hints:
                    H.flags.setdefault('inv_hints', [])
            else:
                H.assume(g)

    def havoc_state(self, st, entry_env, phis, mods, ctx):
        H = st.copy()
        env = dict(entry_env)
        for nm, ty in phis:
            v = entry_env[nm]
            if isinstance(v, P):
                k = fresh('it_' + nm, 64)
                stride = ctx.phi_stride(nm, v)
                env[nm] = P(v.obj, 0, ((k, stride),)) if stride else v
                if not stride:
                    ctx.fixed.add(nm)
                elif v.off % stride:
                    env[nm] = P(v.obj, v.off % stride, ((k, stride),))
            elif isinstance(v, FnP):
                pass
            else:
                env[nm] = self.havoc_val(ty, 'phi_' + nm)
        nk = '#n:' + ctx.hdr
        env[nk] = env['#n'] = fresh('iter', 64)
        if self.local_hints is not None:
            H.hints = list(self.local_hints)
        for nm, ty in phis if self.auto_hints else ():
            v = env[nm]
            if isinstance(v, z3.BitVecRef) and v.size() in (32, 64):
                H.hints.append(v if v.size() == 64 else z3.SignExt(32, v))
            elif isinstance(v, P) and v.sym:
                H.hints.append(v.offterm())
        for m in mods:
            if m[0] == 'g':
                key = m[1]
                v = H.ghost.get(key)
                if v is not None and hasattr(v, 'havoc'):
                    H.ghost[key] = v.havoc(self, H, key)
                elif v is not None:
                    H.ghost[key] = self.havoc_ghost(H, key, v)
                continue
            oid = m[0]
            if oid not in H.mem:
                continue
            s = H.mem[oid].copy()
            H.mem[oid] = s
            if m[1] == 'arr':
                s.arr = ASym('havoc_arr%d' % oid)
            elif m[1] == 'ef':
                s.fields[m[2]] = (m[3], ASym('havoc_ef%d_%d' % (oid, m[2]), m[3] * 8))
            elif m[1] == 'range':
                for k in [k for k, c in s.cells.items() if m[2] <= k < m[2] + m[3]]:
                    del s.cells[k]
                tag = '%d_%d' % (oid, next(_ctr))
                memo = {}

                def rd(eng, st2, o2, sz, isptr, memo=memo, tag=tag):
                    if (o2, sz) not in memo:
                        memo[(o2, sz)] = z3.BitVec("hr_%s_%d_%d" % (tag, o2, sz), sz * 8)
                    return memo[(o2, sz)]
                s.ranges = ((m[2], m[3], None, 0, rd),) + s.ranges
            else:
                off, size = m[1], m[2]
                old = s.cells.get(off)
                for k in [k for k, c in s.cells.items() if not (k + c[0] <= off or off + size <= k)]:
                    del s.cells[k]
                if old is not None and isinstance(old[1], P) and ctx.ptr_cells_fixed.get((oid, off)):
                    s.cells[off] = old
                elif old is not None and isinstance(old[1], P) and ctx.ptr_cell_stride(oid, off, old[1]):
                    sd = ctx.ptr_cell_stride(oid, off, old[1])
                    s.cells[off] = (size, P(old[1].obj, old[1].off % sd, ((fresh('pc', 64), sd),)))
                else:
                    s.cells[off] = (size, fresh('hv%d_%d' % (oid, off), size * 8))
        for rx, fn in self.loophints:
            if re.search(rx, self.demangled(ctx.f.name)):
                H.hints += fn(self, ctx, H, env)
        return H, env

    def havoc_ghost(self, H, key, v):
        if isinstance(v, z3.BoolRef):
            return fresh('gh', 'bool')
        if isinstance(v, z3.BitVecRef):
            return fresh('gh', v.size())
        raise Unsupported("havoc ghost %r" % (key,))


def _sel(bs, i):
    v = cval(i)
    if v is not None:
        return bs[v] if 0 <= v < len(bs) else BV(0, 8)
    r = BV(0, 8)
    for k in range(len(bs) - 1, -1, -1):
        r = z3.If(i == k, bs[k], r)
    return r


def conjuncts(g):
    out, work = [], [g]
    while work:
        x = work.pop()
        if z3.is_and(x):
            work.extend(reversed(x.children()))
        elif z3.is_implies(x) and z3.is_and(x.arg(1)):
            work.extend(z3.Implies(x.arg(0), y) for y in reversed(x.arg(1).children()))
        else:
            out.append(x)
    return out


class LoopCtx:
    def __init__(self, eng, f, hdr, st, env, phis):
        self.eng, self.f, self.hdr, self.st0, self.env0, self.phis = eng, f, hdr, st, env, phis
        self.fixed = set()
        self.ptr_cells_fixed = {}

    def phi_stride(self, nm, v):
        """stride with which a pointer phi may move: element size of its object"""
        if v.obj.kind == 'elems':
            return v.obj.stride
        if v.obj.kind == 'bytes':
            return 1
        if v.sym and len(v.sym) == 1:
            return v.sym[0][1]
        return getattr(v.obj, 'iter_stride', None)

    def ptr_cell_stride(self, oid, off, p):
        if p.obj.kind == 'elems':
            return p.obj.stride
        if p.obj.kind == 'bytes':
            return 1
        return None


def default_cands(eng, ctx):
    """generic candidates over header phis: bounds and linear relations to their entry values"""
    out = []
    bvs = []
    for nm, ty in ctx.phis:
        v = ctx.env0[nm]
        if isinstance(v, z3.BitVecRef) and v.size() in (32, 64):
            bvs.append((nm, v))
            out.append(("nonneg(%s)" % nm, lambda st, env, nm=nm: env[nm] >= 0))
            out.append(("ge0(%s)" % nm, lambda st, env, nm=nm, v=v: env[nm] >= v))
            out.append(("le0(%s)" % nm, lambda st, env, nm=nm, v=v: env[nm] <= v))
            out.append(("uge0(%s)" % nm, lambda st, env, nm=nm, v=v: z3.UGE(env[nm], v)))
            out.append(("ule0(%s)" % nm, lambda st, env, nm=nm, v=v: z3.ULE(env[nm], v)))
            out.append(("same(%s)" % nm, lambda st, env, nm=nm, v=v: env[nm] == v))
        elif isinstance(v, P) and ctx.phi_stride(nm, v):
            out.append(("pge0(%s)" % nm, lambda st, env, nm=nm, v=v: env[nm].offterm() >= v.offterm()))
            if v.obj.size is not None:
                sz = v.obj.size if not isinstance(v.obj.size, int) else c64(v.obj.size)
                out.append(("pin(%s)" % nm, lambda st, env, nm=nm, sz=sz: z3.ULE(env[nm].offterm(), sz)))

    for nm, ty in ctx.phis:
        v = ctx.env0[nm]
        st_ = ctx.phi_stride(nm, v) if isinstance(v, P) else None
        if not (isinstance(v, z3.BitVecRef) and v.size() in (32, 64)) and not st_:
            continue
        v0 = v.offterm() if isinstance(v, P) else v

        def lin(st, env, nm=nm, v0=v0, c=1):
            x = env[nm]
            x = x.offterm() if isinstance(x, P) else x
            n = env['#n'] if x.size() == 64 else z3.Extract(x.size() - 1, 0, env['#n'])
            return x == v0 + n * c
        for c in sorted({1, 2, 3, 4, 6, 8, -1, st_ or 1}):
            out.append(("lin(%s,%d)" % (nm, c), lambda st, env, nm=nm, v0=v0, c=c, lin=lin: lin(st, env, nm, v0, c)))
        if isinstance(v, z3.BitVecRef) and v.size() == 64:
            out.append(("n<=%s" % nm, lambda st, env, nm=nm, v=v: z3.ULE(env['#n'], env[nm] - v)))

    def asbv(env, nm):
        v = env[nm]
        return v.offterm() if isinstance(v, P) else v
    names = [(nm, v) for nm, v in bvs] + [(nm, ctx.env0[nm]) for nm, ty in ctx.phis
                                          if isinstance(ctx.env0[nm], P) and ctx.phi_stride(nm, ctx.env0[nm])]
    for i in range(len(names)):
        for j in range(i + 1, len(names)):
            a, va = names[i]
            b, vb = names[j]
            ta = va.offterm() if isinstance(va, P) else va
            tb = vb.offterm() if isinstance(vb, P) else vb

            def ext(t):
                return t if t.size() == 64 else z3.SignExt(64 - t.size(), t)
            out.append(("sumconst(%s,%s)" % (a, b), lambda st, env, a=a, b=b, ta=ta, tb=tb:
                        ext(asbv(env, a)) + ext(asbv(env, b)) == ext(ta) + ext(tb)))
            out.append(("diffconst(%s,%s)" % (a, b), lambda st, env, a=a, b=b, ta=ta, tb=tb:
                        ext(asbv(env, a)) - ext(asbv(env, b)) == ext(ta) - ext(tb)))
    return out
