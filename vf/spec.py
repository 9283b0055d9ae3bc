"""Specification helpers shared by the properties."""
import z3
from .engine import *
from .std import *


class Transducer:
    """Specification of a byte transducer: the unique function on byte strings given by a step at every input
    position.  consume(arr, len, p) -> number of input bytes the step at p takes (>= 1);
    emit(arr, len, p) -> list of (condition, [output bytes]) - the first true condition selects what is emitted.
    O(p), the output offset of the step at p, is the primitive-recursive function O(0)=0, O(p+c(p)) = O(p)+m(p)
    over the reachable step positions."""

    def __init__(self, name, arr, ln, consume, emit, maxc=1):
        self.maxc = maxc
        self.memo = {}
        self.arr, self.len = arr, ln
        n = next(_ctr_())
        self.O = z3.Function('O_%s!%d' % (name, n), z3.BitVecSort(64), z3.BitVecSort(64))
        self.R = z3.Function('R_%s!%d' % (name, n), z3.BitVecSort(64), z3.BoolSort())
        self.consume, self.emit = consume, emit

    def _memo(self, what, p, fn):
        p = z3.simplify(p)
        k = (what, p.get_id())
        if k not in self.memo:
            self.memo[k] = (fn(p), p)
        return self.memo[k][0]

    def c(self, p):
        return self._memo('c', p, lambda p: self.consume(self.arr, self.len, p))

    def alts(self, p):
        return self._memo('a', p, lambda p: self.emit(self.arr, self.len, p))

    def m(self, p):
        return self._memo('m', p, self._m)

    def _m(self, p):
        a = self.alts(p)
        r = c64(len(a[-1][1]))
        for cond, bs in reversed(a[:-1]):
            r = z3.If(cond, c64(len(bs)), r)
        return z3.simplify(r)

    def byte(self, p, j):
        return self._memo(('b', j), p, lambda p: self._byte(p, j))

    def _byte(self, p, j):
        a = [(c, bs) for c, bs in self.alts(p)]
        r = a[-1][1][j] if j < len(a[-1][1]) else BV(0, 8)
        for cond, bs in reversed(a[:-1]):
            r = z3.If(cond, bs[j] if j < len(bs) else BV(0, 8), r)
        return r

    def maxm(self):
        return max(len(bs) for c, bs in self.alts(c64(0)))

    def axioms(self, st):
        O, R, L = self.O, self.R, self.len
        st.assume(O(c64(0)) == 0)
        st.assume(R(c64(0)))
        st.forall(lambda p: Implies(And(R(p), z3.ULT(p, L)),
                                    And(O(p + self.c(p)) == O(p) + self.m(p), R(p + self.c(p)))), 'transducer-def')
        # positions inside a step are not step positions
        if self.maxc > 1:
            st.forall(lambda p: Implies(And(R(p), z3.ULT(p, L)), And(*[Implies(z3.ULT(c64(d), self.c(p)), Not(R(p + d)))
                                                                       for d in range(1, self.maxc)])), 'transducer-gap')
        # bounded output: every step emits at most maxm bytes per consumed byte (lemma, proved by emit_lemma)
        st.forall(lambda p: Implies(And(R(p), z3.ULE(p, L)), z3.ULE(O(p), p * self.maxm() + 0)), 'transducer-bound')
        st.hint(c64(0), L)

    def lemma_bound(self, eng, st):
        """induction step of the bound lemma: O(p) <= maxm*p and c >= 1 imply O(p+c) <= maxm*(p+c)"""
        p = fresh('p', 64)
        o = fresh('o', 64)
        s = st.copy()
        s.assume(z3.ULT(p, self.len))
        s.assume(z3.ULE(o, p * self.maxm()))
        eng.oblige(s, z3.ULE(o + self.m(p), (p + self.c(p)) * self.maxm()), 'spec-lemma:output-bound-step')

    def prefix(self, out_arr, out_len, pos, j=None):
        """out holds exactly the emissions of the steps at reachable positions below pos (Ors over all j)"""
        def body(q):
            cs = [z3.ULE(self.O(q) + self.m(q), out_len)]
            for j in range(self.maxm()):
                cs.append(Implies(z3.ULT(c64(j), self.m(q)), out_arr.get(self.O(q) + j) == self.byte(q, j)))
            return Implies(And(self.R(q), z3.ULT(q, pos)), And(*cs))
        return body


def _ctr_():
    from . import engine
    return engine._ctr


def transducer_loop(T, outstr, posof):
    """loopspec: invariants relating the output string/stream to the transducer at the loop's current input position.
    posof: list of candidate terms for the current position (functions of env)"""
    def gen(eng, ctx):
        out = []
        for nm, pf in posof(eng, ctx):
            out.append(('reach[%s]' % nm, lambda st, env, pf=pf: T.R(pf(st, env))))
            out.append(('within[%s]' % nm, lambda st, env, pf=pf: z3.ULE(pf(st, env), T.len)))
            out.append(('outlen[%s]' % nm, lambda st, env, pf=pf: outstr(eng, st)[1] == T.O(pf(st, env))))
            out.append(('content[%s]' % nm, lambda st, env, pf=pf: ForAll(
                T.prefix(outstr(eng, st)[0], outstr(eng, st)[1], pf(st, env)), hints=[pf(st, env)])))
        return out
    return gen


def all_int_phis(T, base_off=None):
    """every 64-bit integer loop variable (and every pointer variable into the input) is a candidate position"""
    def f(eng, ctx):
        r = []
        for nm, ty in ctx.phis:
            v = ctx.env0[nm]
            if isinstance(v, z3.BitVecRef) and v.size() == 64:
                r.append((nm, lambda st, env, nm=nm: env[nm]))
            elif isinstance(v, z3.BitVecRef) and v.size() == 32:
                r.append((nm, lambda st, env, nm=nm: z3.SignExt(32, env[nm])))
            elif isinstance(v, P) and v.obj.kind == 'bytes':
                r.append((nm, lambda st, env, nm=nm: env[nm].offterm()))
        return r
    return f


class PrefixSum:
    """S(0)=0, S(k+1)=S(k)+f(k) for k<n (definition by recursion), with the monotonicity lemmas relative to given
    indices (their induction steps are proved as obligations)."""

    def __init__(self, name, f, n, bound, cap=1 << 24):
        self.cap = cap      # the caller assumes n <= cap
        self.S = z3.Function('S_%s!%d' % (name, next(_ctr_())), z3.BitVecSort(64), z3.BitVecSort(64))
        self.f, self.n, self.bound = f, n, bound

    def axioms(self, st, back=True):
        S, f, n, B = self.S, self.f, self.n, self.bound
        st.assume(S(c64(0)) == 0)
        st.forall(lambda k: Implies(z3.ULT(k, n), S(k + 1) == S(k) + f(k)), 'prefix-sum-def')
        if back:
            st.forall(lambda k: Implies(z3.ULT(k - 1, n), S(k) == S(k - 1) + f(k - 1)), 'prefix-sum-def')
        st.forall(lambda k: Implies(z3.ULE(k, n), z3.ULE(S(k), c64(self.cap * B))), 'prefix-sum-bound')
        st.hint(c64(0), n)

    def around(self, st, i0):
        """lemma instances: position of S(k) relative to the i0-th item"""
        S, f, n = self.S, self.f, self.n
        st.forall(lambda k: Implies(z3.ULT(k, i0), z3.ULE(S(k) + f(k), S(i0))), 'prefix-sum-mono')
        st.forall(lambda k: Implies(And(z3.UGT(k, i0), z3.ULE(k, n)), z3.UGE(S(k), S(i0) + f(i0))), 'prefix-sum-mono')
        st.hint(i0)

    def lemmas(self, eng, st):
        """induction steps of the bound and monotonicity lemmas, from the definition and 0 <= f(k) <= bound"""
        s = State()
        k, Sk, fk, X, B = fresh('k', 64), fresh('Sk', 64), fresh('fk', 64), fresh('X', 64), c64(self.bound)
        s.assume(And(z3.ULT(k, 1 << 40), z3.ULE(fk, B), z3.ULE(Sk, k * B)))
        eng.oblige(s, z3.ULE(Sk + fk, (k + 1) * B), 'spec-lemma:prefix-sum-bound-step')
        s2 = s.copy()
        s2.assume(z3.UGE(Sk, X))
        eng.oblige(s2, z3.UGE(Sk + fk, X), 'spec-lemma:prefix-sum-monotone-step')
        s3 = st.copy()
        k = fresh('k', 64)
        s3.assume(z3.ULT(k, self.n)).hint(k)
        eng.oblige(s3, And(self.f(k) >= 0, z3.ULE(self.f(k), B)), 'spec-lemma:summand-in-range')


def sx(t):
    return t if t.size() == 64 else z3.SignExt(64 - t.size(), t)


def loop_ints(eng, ctx):
    """every integer variable of the loop: header phis and integer cells of stack objects. [(name, getter)] (64-bit)"""
    out = []
    for nm, ty in ctx.phis:
        v = ctx.env0[nm]
        if isinstance(v, z3.BitVecRef) and v.size() in (32, 64):
            out.append((nm, lambda st, env, nm=nm: sx(env[nm])))
    for oid, o in stack_objs(eng, ctx):
        for off, (size, v) in list(ctx.st0.mem[oid].cells.items()):
            if isinstance(v, z3.BitVecRef) and size in (4, 8):
                out.append(('%d+%d' % (oid, off), lambda st, env, oid=oid, off=off, size=size:
                            sx(cellval(st, oid, off, size))))
    return out


def cellval(st, oid, off, size):
    c = st.mem[oid].cells.get(off)
    if c is None or c[0] != size or not isinstance(c[1], z3.BitVecRef):
        raise Unsupported('cell')
    return c[1]


def stack_objs(eng, ctx):
    return [(oid, eng.objs[oid]) for oid in ctx.st0.mem if oid in eng.objs and eng.objs[oid].local]


def loop_iters(eng, ctx, seqobj):
    """every pointer variable into the elements of seqobj: [(name, getter of the element index)]"""
    out = []
    for nm, ty in ctx.phis:
        v = ctx.env0[nm]
        if isinstance(v, P) and v.obj is seqobj:
            out.append((nm, lambda st, env, nm=nm: eng.elem_split(env[nm])[0]))
    for oid, o in stack_objs(eng, ctx):
        for off, (size, v) in list(ctx.st0.mem[oid].cells.items()):
            if isinstance(v, P) and v.obj is seqobj:
                def g(st, env, oid=oid, off=off):
                    c = st.mem[oid].cells.get(off)
                    if c is None or not isinstance(c[1], P) or c[1].obj is not seqobj:
                        raise Unsupported('iter')
                    return eng.elem_split(c[1])[0]
                out.append(('%d+%d' % (oid, off), g))
    return out
