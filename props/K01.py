"""K01: binary <-> text codecs (base64, hex) are exact and mutually inverse; malformed text is rejected."""
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *

PROP = Prop('K01')
PROP.assumptions = ['input length below 2^36 bytes', 'std::string behaves as its standard contract (vf/std.py)',
                    'char is signed 8-bit two\'s complement (x86-64)']
PROP.tu('enc', '''#include <stdexcept>
#include <string>
#include <sofa/pbrpc/bin2ascii.h>
__attribute__((used)) static void* keep[] = {(void*)&sofa::pbrpc::b64_encode,(void*)&sofa::pbrpc::b64_decode,
  (void*)&sofa::pbrpc::bin2hex,(void*)&sofa::pbrpc::hex2bin};
''')
PROP.native('k01', 'k01.cc', args=[], what='all byte strings up to length 2 exhaustively, random ones above; all 4-byte texts over a hostile alphabet')

B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
HEX = b"0123456789abcdef"
MAXL = 1 << 36


def setup(eng, name):
    fn = eng.find(r'^sofa::pbrpc::%s\(' % name)
    st = State()
    L = fresh('len', 64)
    st.assume(z3.ULT(L, MAXL))
    so = eng.new_obj(st, 's', 'cells', size=32)
    ro = eng.new_obj(st, 'ret', 'cells', size=32)
    v = new_str(eng, st, ASym('s'), L)
    put_str(eng, st, P(so), v)
    arr = str_arr(eng, st, v)
    return fn, st, L, so, ro, arr


def outstr(ro):
    def f(eng, st):
        v = st.ghost.get(('str', ro.id, 0))
        if v is None:
            raise Unsupported('no result string')
        return str_arr(eng, st, v), v.len
    return f


def tab(T, idx):
    """T[idx] for a 6/4-bit index, as arithmetic on ranges (independent of the code's tables)"""
    r = BV(T[-1], 8)
    for k in range(len(T) - 2, -1, -1):
        r = z3.If(idx == k, BV(T[k], 8), r)
    return r


def hexval(c):
    """(valid, value) of a hexadecimal digit"""
    d = And(z3.UGE(c, 48), z3.ULE(c, 57))
    u = And(z3.UGE(c, 65), z3.ULE(c, 70))
    l = And(z3.UGE(c, 97), z3.ULE(c, 102))
    return Or(d, u, l), z3.If(d, c - 48, z3.If(u, c - 55, c - 87))


def b64val(c):
    """(valid, 6-bit value in 8 bits); '=' counts as the zero filler"""
    U = And(z3.UGE(c, 65), z3.ULE(c, 90))
    l = And(z3.UGE(c, 97), z3.ULE(c, 122))
    d = And(z3.UGE(c, 48), z3.ULE(c, 57))
    v = z3.If(U, c - 65, z3.If(l, c - 71, z3.If(d, c + 4, z3.If(c == 43, BV(62, 8), z3.If(c == 47, BV(63, 8), BV(0, 8))))))
    return Or(U, l, d, c == 43, c == 47, c == 61), v


# --- encoders
@PROP.job('bin2hex', 'enc')
def j_bin2hex(eng):
    fn, st, L, so, ro, arr = setup(eng, 'bin2hex')
    T = Transducer('hex', arr, L, lambda a, n, p: c64(1), lambda a, n, p: [
        (TRUE, [tab(HEX, z3.LShR(a.get(p), 4)), tab(HEX, a.get(p) & 15)])])
    T.axioms(st)
    T.lemma_bound(eng, st)
    eng.loopspecs.append(('.', transducer_loop(T, outstr(ro), all_int_phis(T))))
    finish(eng, st, fn, so, ro, T)


def finish(eng, st, fn, so, ro, T):
    rets = eng.call(st, fn, [P(ro), P(so)])
    for s, v in rets:
        eng.cover(s)
        a, n = outstr(ro)(eng, s)
        eng.oblige(s, n == T.O(T.len), 'result-length-is-spec')
        eng.oblige(s, ForAll(T.prefix(a, n, T.len)), 'result-bytes-are-spec', hints=[T.len])
    return rets


@PROP.job('b64_encode', 'enc')
def j_b64enc(eng):
    fn, st, L, so, ro, arr = setup(eng, 'b64_encode')
    # spec: every group of 3 input bytes (zero-filled at the end) gives 4 characters; the '=' padding is part of the
    # last group.  q full groups, r trailing bytes.
    q, r = fresh('q', 64), fresh('r', 64)
    st.assume(And(L == 3 * q + r, z3.ULT(r, 3), z3.ULT(q, 1 << 35)))
    eng.auto_unroll = 3
    eng.rewrite_lemma(st, z3.URem(L, c64(3)), r, 'len-mod-3')
    eng.rewrite_lemma(st, z3.URem(3 - r, c64(3)), z3.If(r == 0, c64(0), 3 - r), 'pad-count')

    def by(i):
        return z3.If(z3.ULT(i, L), arr.get(i), BV(0, 8))

    def ch(g, j):
        n = z3.Concat(by(3 * g), by(3 * g + 1), by(3 * g + 2))
        return tab(B64, z3.Extract(23 - 6 * j, 18 - 6 * j, n))
    O = outstr(ro)

    def cands(eng, ctx):
        out = []
        out.append(('groups-len', lambda st, env: Implies(z3.ULE(env['#n'], q), O(eng, st)[1] == 4 * env['#n'])))
        out.append(('tail-len', lambda st, env: Implies(z3.UGT(env['#n'], q), O(eng, st)[1] == 4 * q + r + 1)))
        out.append(('n', lambda st, env: z3.ULE(env['#n'], q + z3.If(r == 0, c64(0), c64(1)))))
        for j in range(4):
            out.append(('group-char%d' % j, lambda st, env, j=j: ForAll(
                lambda k: Implies(And(z3.ULT(k, env['#n']), z3.ULT(4 * k + j, O(eng, st)[1]), z3.ULT(k, 1 << 40)),
                                  O(eng, st)[0].get(4 * k + j) == ch(k, j)))))
        return out
    eng.loopspecs.append(('.', cands))
    rets = eng.call(st, fn, [P(ro), P(so)])
    for s, v in rets:
        eng.cover(s)
        a, n = O(eng, s)
        eng.oblige(s, n == z3.If(r == 0, 4 * q, 4 * q + 4), 'length')
        for j in range(4):
            eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, q), a.get(4 * k + j) == ch(k, j))), 'full-group-char%d' % j)
        eng.oblige(s, Implies(r != 0, And(a.get(4 * q) == ch(q, 0), a.get(4 * q + 1) == ch(q, 1))), 'tail-group-chars', hints=[q])
        eng.oblige(s, Implies(r == 1, And(a.get(4 * q + 2) == 61, a.get(4 * q + 3) == 61)), 'two-pads')
        eng.oblige(s, Implies(r == 2, And(a.get(4 * q + 2) == ch(q, 2), a.get(4 * q + 3) == 61)), 'one-pad', hints=[q])


# --- decoders: (a) well-formed text decodes to the spec and never throws
def hex_spec(arr, L):
    return Transducer('unhex', arr, L, lambda a, n, p: c64(2), lambda a, n, p: [
        (TRUE, [(hexval(a.get(p))[1] << 4) | hexval(a.get(p + 1))[1]])], maxc=2)


def b64_spec(arr, L):
    def emit(a, n, p):
        c = [a.get(p + k) for k in range(4)]
        v = [z3.Extract(5, 0, b64val(x)[1]) for x in c]
        w = z3.Concat(*v)
        b = [z3.Extract(23 - 8 * k, 16 - 8 * k, w) for k in range(3)]
        # '=' in place 2 / 3 drops that byte
        return [(And(c[2] != 61, c[3] != 61), b), (And(c[2] != 61, c[3] == 61), b[:2]),
                (And(c[2] == 61, c[3] != 61), [b[0], b[2]]), (TRUE, b[:1])]
    return Transducer('unb64', arr, L, lambda a, n, p: c64(4), emit, maxc=4)


def decoder(eng, name, spec, unit, valid):
    fn, st, L, so, ro, arr = setup(eng, name)
    n = fresh('groups', 64)
    st.assume(And(L == n * unit, z3.ULT(n, MAXL)))
    st.forall(lambda k: Implies(z3.ULT(k, L), valid(arr.get(k))), 'well-formed')
    T = spec(arr, L)
    T.axioms(st)
    T.lemma_bound(eng, st)

    # positions are multiples of the unit (needed to stay in bounds)
    def al(eng, ctx):
        return [('pos[%s]' % nm, lambda s, e, nm=nm: And(e[nm] == e['#n'] * unit, z3.ULE(e['#n'], n)))
                for nm, ty in ctx.phis if isinstance(ctx.env0[nm], z3.BitVecRef) and ctx.env0[nm].size() == 64]
    eng.loopspecs.append(('.', al))
    eng.loopspecs.append(('.', transducer_loop(T, outstr(ro), all_int_phis(T))))

    # validity at the bytes of the current group
    eng.loophints.append(('.', lambda eng, ctx, s, e: [e[nm] + k for nm, ty in ctx.phis for k in range(1, unit)
                                                       if isinstance(e[nm], z3.BitVecRef) and e[nm].size() == 64]))
    eng.exc_policy = 'fail'
    return finish(eng, st, fn, so, ro, T)


@PROP.job('hex2bin-wellformed', 'enc')
def j_hexd(eng):
    decoder(eng, 'hex2bin', hex_spec, 2, lambda c: hexval(c)[0])


@PROP.job('b64_decode-wellformed', 'enc')
def j_b64d(eng):
    decoder(eng, 'b64_decode', b64_spec, 4, lambda c: b64val(c)[0])


# (b) a normal return means the text was well-formed
def rejects(eng, name, unit, valid):
    fn, st, L, so, ro, arr = setup(eng, name)
    eng.exc_policy = 'allow'

    def cands(eng, ctx):
        out = []
        for nm, ty in ctx.phis:
            v = ctx.env0[nm]
            if isinstance(v, z3.BitVecRef) and v.size() == 64:
                out.append(('valid-below[%s]' % nm, lambda s, e, nm=nm: ForAll(
                    lambda k: Implies(And(z3.ULT(k, e[nm]), z3.ULT(k, L)), valid(arr.get(k))))))
                out.append(('unit[%s]' % nm, lambda s, e, nm=nm: z3.URem(e[nm], c64(unit)) == 0))
                out.append(('le[%s]' % nm, lambda s, e, nm=nm: z3.ULE(e[nm], L + unit - 1)))
        return out
    eng.loopspecs.append(('.', cands))
    rets = eng.call(st, fn, [P(ro), P(so)])
    for s, v in rets:
        eng.cover(s)
        eng.oblige(s, z3.URem(L, c64(unit)) == 0, 'accepted-size-is-whole-groups')
        eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, L), valid(arr.get(k)))), 'accepted-text-is-wellformed')


@PROP.job('hex2bin-rejects', 'enc')
def j_hexr(eng):
    rejects(eng, 'hex2bin', 2, lambda c: hexval(c)[0])


@PROP.job('b64_decode-rejects', 'enc')
def j_b64r(eng):
    rejects(eng, 'b64_decode', 4, lambda c: b64val(c)[0])


# --- lemmas over the two contracts: decode(encode(x)) == x, group by group
@PROP.job('roundtrip-lemmas', 'enc')
def j_lemma(eng):
    st = State()
    b = [fresh('b%d' % i, 8) for i in range(3)]
    h = [tab(HEX, z3.LShR(b[0], 4)), tab(HEX, b[0] & 15)]
    eng.oblige(st, And(hexval(h[0])[0], hexval(h[1])[0], ((hexval(h[0])[1] << 4) | hexval(h[1])[1]) == b[0]), 'hex-roundtrip-group')
    for r in (3, 1, 2):
        x = b[:r] + [BV(0, 8)] * (3 - r)
        n = z3.Concat(*x)
        e = [tab(B64, z3.Extract(23 - 6 * j, 18 - 6 * j, n)) for j in range(4)]
        if r < 3:
            e[3] = BV(61, 8)
        if r < 2:
            e[2] = BV(61, 8)
        w = z3.Concat(*[z3.Extract(5, 0, b64val(c)[1]) for c in e])
        eng.oblige(st, And(*[b64val(c)[0] for c in e]), 'b64-encoded-group-is-wellformed-%d' % r)
        eng.oblige(st, And(*[z3.Extract(23 - 8 * k, 16 - 8 * k, w) == b[k] for k in range(r)]), 'b64-roundtrip-group-%d' % r)
        if r == 3:
            eng.oblige(st, And(e[2] != 61, e[3] != 61), 'b64-full-group-has-no-pad')
        if r == 2:
            eng.oblige(st, And(e[2] != 61), 'b64-two-byte-group-keeps-third-char')
    eng.cover(st)
