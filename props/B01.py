"""B01: transport buffers carry bytes exactly (WriteBuffer / ReadBuffer / pooled reference-counted blocks)."""
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.cont import *

PROP = Prop('B01')
PROP.assumptions = ['std::deque behaves as a sequence (vf/cont.py); a buffer holds fewer than 2^24 blocks of at most 2^20 bytes',
                    'blocks of one buffer are pairwise disjoint (they come from separate malloc results: contract of the pool, proved in job pool-*)',
                    'the data passed to a write does not overlap the buffer\'s own blocks',
                    'single-threaded use of one buffer object (reference counts themselves are atomic)']
PROP.tu('buf', '''#include "vfstd.h"
#include <google/protobuf/io/zero_copy_stream.h>
#include <sofa/pbrpc/smart_ptr/smart_ptr.hpp>
#define private public
#define protected public
#include <sofa/pbrpc/buffer.h>
#include "sofa/pbrpc/buffer.cc"
using namespace sofa::pbrpc;
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(RB_list, ReadBuffer, _buf_list) OFF(RB_blk, ReadBuffer, _total_block_size) OFF(RB_total, ReadBuffer, _total_bytes)
OFF(RB_it, ReadBuffer, _cur_it) OFF(RB_pos, ReadBuffer, _cur_pos) OFF(RB_last, ReadBuffer, _last_bytes) OFF(RB_read, ReadBuffer, _read_bytes)
OFF(WB_list, WriteBuffer, _buf_list) OFF(WB_blk, WriteBuffer, _total_block_size) OFF(WB_cap, WriteBuffer, _total_capacity)
OFF(WB_last, WriteBuffer, _last_bytes) OFF(WB_write, WriteBuffer, _write_bytes) OFF(WB_factor, WriteBuffer, _base_block_factor)
OFF(BH_data, BufHandle, data) OFF(BH_size, BufHandle, size) OFF(BH_cap, BufHandle, capacity) OFF(BH_off, BufHandle, offset)
extern "C" const unsigned long SZ_RB = sizeof(ReadBuffer);
extern "C" const unsigned long SZ_WB = sizeof(WriteBuffer);
extern "C" void* vf_malloc(int f) { return TranBufPool::malloc(f); }
extern "C" int vf_bs(void* p) { return TranBufPool::block_size(p); }
extern "C" int vf_cap(void* p) { return TranBufPool::capacity(p); }
extern "C" void vf_ref(void* p) { TranBufPool::add_ref(p); }
extern "C" void vf_free(void* p) { TranBufPool::free(p); }
''')
PROP.native('b01', 'b01.cc', repo=['buffer.cc', 'common.cc'], libs=['-lprotobuf'], what='random operation sequences against a byte-string model')

MAXB = 1 << 20     # largest block
MAXN = 1 << 24


# ---------------------------------------------------------------- the pool on its own representation
def pool(eng):
    """a live block: bytes object, header (size, refcount) in the first 8 bytes"""
    st = State()
    n = fresh('bytes', 64)
    st.assume(And(z3.UGE(n, 64), z3.ULE(n, MAXB)))
    o = eng.new_obj(st, 'block', 'bytes', size=n)
    return st, o, n


def u32(eng, st, o, off):
    a = eng.ost(st, o).arr
    return z3.Concat(*[a.get(c64(off + k)) for k in (3, 2, 1, 0)])


def libc(eng):
    def malloc(e, s, a, n):
        o = e.new_obj(s, 'heap', 'bytes', size=a[0])
        s2 = s.copy()
        s2.event('malloc-null', a[0])
        s.event('malloc', o, a[0])
        return [(s, P(o)), (s2, c64(0))]

    def free(e, s, a, n):
        p = e.materialise(s, a[0])
        e.oblige(s, And(p.offterm() == 0), 'free-of-block-start')
        e.wst(s, p.obj).freed = True
        s.event('free', p.obj)
    eng.contract(r'^malloc$', malloc)
    eng.contract(r'^free$', free)


@PROP.job('pool-malloc', 'buf')
def j_malloc(eng):
    libc(eng)
    st = State()
    f = fresh('factor', 32)
    st.assume(And(f >= 0, f <= 9))
    rets = eng.call(st, 'vf_malloc', [f])
    kinds = set()
    for s, v in rets:
        eng.cover(s)
        ev = [e for e in s.events if e[0].startswith('malloc')]
        eng.oblige(s, z3.BoolVal(len(ev) == 1), 'one-allocation')
        if ev[0][0] == 'malloc-null':
            kinds.add(0)
            eng.oblige(s, eng.ptr_eq(s, v, c64(0)), 'null-on-failure')
            continue
        kinds.add(1)
        o, n = ev[0][1], ev[0][2]
        eng.oblige(s, And(n == z3.ZeroExt(32, BV(64, 32) << f)), 'allocates-base<<factor')
        ok = isinstance(v, P) and v.obj is o
        eng.oblige(s, z3.BoolVal(ok), 'returns-the-block')
        if ok:
            d = v.offterm()
            eng.oblige(s, And(z3.UGE(d, 8), z3.ULT(d, n)), 'data-after-header')
            st2 = s.copy()
            for nm, fn, want in (('block_size', 'vf_bs', z3.Extract(31, 0, n)), ('capacity', 'vf_cap', z3.Extract(31, 0, n - d))):
                for s3, r in eng.call(s.copy(), fn, [v]):
                    eng.oblige(s3, r == want, 'fresh-' + nm)
            # one release frees it
            for s3, r in eng.call(s.copy(), 'vf_free', [v]):
                eng.oblige(s3, z3.BoolVal(any(e[0] == 'free' and e[1] is o for e in s3.events)), 'one-free-releases-fresh-block')
    eng.oblige(st, z3.BoolVal(kinds == {0, 1}), 'both-outcomes')


@PROP.job('pool-refcount', 'buf')
def j_ref(eng):
    libc(eng)
    # add_ref then free: block stays; k references need k frees: the counter is a number and the last free releases
    for fn in ('vf_ref', 'vf_free'):
        st, o, n = pool(eng)
        rc = u32(eng, st, o, 4)
        st.assume(And(rc > 0, rc < (1 << 30)))
        arr0 = eng.ost(st, o).arr
        for s, v in eng.call(st, fn, [P(o, 8)]):
            eng.cover(s)
            freed = any(e[0] == 'free' for e in s.events)
            if fn == 'vf_ref':
                eng.oblige(s, z3.BoolVal(not freed), 'add_ref-never-frees')
            else:
                eng.oblige(s, (rc == 1) if freed else (rc != 1), 'released-exactly-when-last-reference-goes')
            if not freed:
                s.mem[o.id].freed = False
                eng.oblige(s, u32(eng, s, o, 4) == (rc + 1 if fn == 'vf_ref' else rc - 1), fn + '-count')
                a = eng.ost(s, o).arr
                eng.oblige(s, ForAll(lambda k: Implies(Or(z3.ULT(k, 4), z3.UGE(k, 8)), a.get(k) == arr0.get(k))), fn + '-touches-only-the-count')
    for fn, want in (('vf_bs', 0), ('vf_cap', 8)):
        st, o, n = pool(eng)
        bs = u32(eng, st, o, 0)
        for s, v in eng.call(st, fn, [P(o, 8)]):
            eng.cover(s)
            eng.oblige(s, v == bs - want, fn + '-reads-header')


# ---------------------------------------------------------------- buffers over the pool's contract
class Ctx:
    pass


def flat(eng):
    """flat block memory and the pool contract"""
    c = Ctx()
    c.mem = Obj('blockmem', 'bytes', size=None, addr=c64(0))
    c.mem0 = ASym('blockmem')
    c.mem.memo['arr'] = c.mem0
    c.bs = z3.Function('block_size', z3.BitVecSort(64), z3.BitVecSort(32))
    eng.opaque_policy = lambda e, s, t: P(c.mem, 0, ((t, 1),)) if not is_c(t) else None
    D, SZ, CP = eng.off('BH_data'), eng.off('BH_size'), eng.off('BH_cap')
    c.D, c.SZ, c.CP = D, SZ, CP

    def glog(s, which, p):
        a, n = s.ghost.get((which, 'log')), s.ghost.get((which, 'n'))
        e_ = AStore(a, n, p)
        eng.setghost(s, (which, 'log'), GArr(e_))
        eng.setghost(s, (which, 'n'), z3.simplify(n + 1))

    def malloc(e, s, a, n):
        p = fresh('newblock', 64)
        s2 = s.copy()
        s.assume(And(p != 0, c.bs(p) == (BV(64, 32) << a[0])))
        e.oblige(s, And(a[0] >= 0, a[0] <= 14), 'pool-malloc-factor-in-range')
        s.event('alloc', p)
        s2.event('alloc-fail')
        return [(s, p), (s2, c64(0))]

    def bsz(e, s, a, n):
        return c.bs(ptr_term(a[0]))

    def cap(e, s, a, n):
        return c.bs(ptr_term(a[0])) - 8

    def add_ref(e, s, a, n):
        glog(s, 'add', ptr_term(a[0]))

    def free(e, s, a, n):
        if c.on_free:
            c.on_free(s, ptr_term(a[0]))
        glog(s, 'free', ptr_term(a[0]))
    T = r'^sofa::pbrpc::TranBufPool::'
    eng.contract(T + r'malloc\(', malloc, trusted=False)
    eng.contract(T + r'block_size\(', bsz, trusted=False)
    eng.contract(T + r'capacity\(', cap, trusted=False)
    eng.contract(T + r'add_ref\(', add_ref, trusted=False)
    eng.contract(T + r'free\(', free, trusted=False)
    c.on_free = None
    return c


class GArr(Arr):
    """ghost array that is havocked as a whole"""

    def __init__(self, a):
        self.a = a
        self.w = a.w

    def get(self, i):
        return self.a.get(i)

    def havoc(self, eng, st, key):
        return GArr(ASym('hghost', self.w))


def logs(st):
    for w in ('add', 'free'):
        st.ghost[(w, 'log')] = GArr(ASym(w + 'log', 64))
        st.ghost[(w, 'n')] = c64(0)


def field(eng, st, v, i, off, size):
    return v.at(eng, st, i, off, size)


def fld(eng, st, obj, off, size):
    return eng.load(st, P(obj, off), ('i', size * 8))


def mkwb(eng, c, st=None, name='wb', back=True, rich=True):
    """a WriteBuffer satisfying its representation invariant"""
    st = st or State()
    logs(st)
    wb = eng.new_obj(st, name, 'cells', size=eng.off('SZ_WB'))
    eng.set_vptr(st, wb, 'sofa::pbrpc::WriteBuffer')
    v = new_seq(eng, st, 'sofa::pbrpc::BufHandle', name + '_list', lo=c64(0), ln=fresh('n', 64))
    put_seq(eng, st, P(wb, eng.off('WB_list')), v)
    n = v.len
    st.assume(z3.ULT(n, MAXN))
    c.data0 = eng.elem_field(st, v.obj, eng.ost(st, v.obj), c.D, 8)
    c.size0 = eng.elem_field(st, v.obj, eng.ost(st, v.obj), c.SZ, 4)
    c.cap0 = eng.elem_field(st, v.obj, eng.ost(st, v.obj), c.CP, 4)
    c.n0 = n
    data0, size0, cap0, n0 = c.data0, c.size0, c.cap0, c.n0
    st.forall(lambda k: Implies(z3.ULT(k, n0), And(size0.get(k) >= 0, size0.get(k) <= MAXB)) if not rich else Implies(z3.ULT(k, n0), And(cap0.get(k) > 0, cap0.get(k) <= MAXB, size0.get(k) >= 0,
                                                   size0.get(k) <= cap0.get(k), data0.get(k) != 0, c.bs(data0.get(k)) == cap0.get(k) + 8,
                                                   Implies(z3.ULT(k + 1, n0), size0.get(k) == cap0.get(k)))), 'wb-inv')
    c.ps = PrefixSum('size', lambda k: sx(size0.get(k)), n0, MAXB)
    c.ps.axioms(st, back)
    if rich:
        st.hint(n0 - 1)
    wr = fld(eng, st, wb, eng.off('WB_write'), 8)
    last = fld(eng, st, wb, eng.off('WB_last'), 4)
    st.assume(wr == c.ps.S(n0))
    st.assume(And(last >= 0, Implies(n0 == 0, last == 0), Implies(n0 != 0, last <= size0.get(n0 - 1))))
    f = fld(eng, st, wb, eng.off('WB_factor'), 8)
    c.bs0, c.tc0 = fld(eng, st, wb, eng.off('WB_blk'), 8), fld(eng, st, wb, eng.off('WB_cap'), 8)
    st.assume(And(c.bs0 >= 0, c.bs0 < (1 << 50), c.tc0 >= 0, c.tc0 < (1 << 50)))
    c.wr0, c.last0, c.factor0, c.wb, c.v0 = wr, last, f, wb, v
    return st


def wbstate(eng, c, s):
    v = get_seq(eng, s, P(c.wb, eng.off('WB_list')))
    g = lambda i, off, size: v.at(eng, s, i, off, size)
    return v, (lambda i: g(i, c.D, 8)), (lambda i: g(i, c.SZ, 4)), (lambda i: g(i, c.CP, 4)), \
        fld(eng, s, c.wb, eng.off('WB_write'), 8), fld(eng, s, c.wb, eng.off('WB_last'), 4)


def wb_unchanged_list(eng, c, s, upto, name):
    v, d, sz, cp, wr, la = wbstate(eng, c, s)
    eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, upto), And(d(k) == c.data0.get(k), sz(k) == c.size0.get(k), cp(k) == c.cap0.get(k)))), name)


def no_release(eng, s):
    eng.oblige(s, And(s.ghost[('free', 'n')] == 0, s.ghost[('add', 'n')] == 0), 'no-reference-count-change')


@PROP.job('WriteBuffer::Next', 'buf')
def j_wnext(eng):
    c = flat(eng)
    st = mkwb(eng, c)
    # "last block full or not" is decided by the code; a fresh block's factor comes from the block count
    st.assume(z3.ULE(c.factor0, 9))
    c.ps.lemmas(eng, st)
    out = eng.new_obj(st, 'data', 'cells', size=8)
    osz = eng.new_obj(st, 'size', 'cells', size=4)
    fn = eng.find(r'^sofa::pbrpc::WriteBuffer::Next\(')
    kinds = set()
    for s, r in eng.call(st, fn, [P(c.wb), P(out), P(osz)]):
        eng.cover(s)
        v, d, sz, cp, wr, la = wbstate(eng, c, s)
        r = z3.simplify(r)
        no_release(eng, s)
        if z3.is_false(r):
            kinds.add('fail')
            eng.oblige(s, And(v.len == c.n0, wr == c.wr0, la == 0), 'failure-changes-nothing')
            wb_unchanged_list(eng, c, s, c.n0, 'failure-keeps-blocks')
            continue
        eng.oblige(s, r, 'boolean')
        p = ptr_term(eng.load(s, P(out), ('ptr',)))
        n = eng.load(s, P(osz), ('i', 32))
        ext = any(e[0] == 'alloc' for e in s.events)
        kinds.add('ext' if ext else 'fill')
        li = v.len - 1
        old = BV(0, 32) if ext else c.size0.get(c.n0 - 1)
        if ext:
            b = [e[1] for e in s.events if e[0] == 'alloc'][-1]
            eng.oblige(s, And(v.len == c.n0 + 1, d(li) == b, cp(li) == c.bs(b) - 8), 'new-block-appended')
            eng.oblige(s, Or(c.n0 == 0, c.size0.get(c.n0 - 1) == c.cap0.get(c.n0 - 1)), 'extends-only-when-full')
            wb_unchanged_list(eng, c, s, c.n0, 'earlier-blocks-unchanged')
            eng.oblige(s, And(fld(eng, s, c.wb, eng.off('WB_blk'), 8) == c.bs0 + sx(c.bs(b)),
                              fld(eng, s, c.wb, eng.off('WB_cap'), 8) == c.tc0 + sx(c.bs(b) - 8)), 'size-totals-grow-by-the-block')
        else:
            eng.oblige(s, And(v.len == c.n0, d(li) == c.data0.get(li), cp(li) == c.cap0.get(li)), 'fills-last-block')
            wb_unchanged_list(eng, c, s, c.n0 - 1, 'earlier-blocks-unchanged')
            eng.oblige(s, And(fld(eng, s, c.wb, eng.off('WB_blk'), 8) == c.bs0, fld(eng, s, c.wb, eng.off('WB_cap'), 8) == c.tc0), 'size-totals-kept')
        eng.oblige(s, And(n > 0, p == d(li) + sx(old), sx(old) + sx(n) == sx(cp(li))), 'hands-out-exactly-the-unused-tail')
        eng.oblige(s, And(sz(li) == cp(li), la == n, wr == c.wr0 + sx(n)), 'counts-follow')
    eng.oblige(st, z3.BoolVal({'ext', 'fill', 'fail'} <= kinds), 'all-outcomes-reachable')


@PROP.job('WriteBuffer::BackUp', 'buf')
def j_wback(eng):
    c = flat(eng)
    st = mkwb(eng, c)
    cnt = fresh('count', 32)
    st.assume(And(c.last0 > 0, cnt >= 0, cnt <= c.last0))
    fn = eng.find(r'^sofa::pbrpc::WriteBuffer::BackUp\(')
    for s, r in eng.call(st, fn, [P(c.wb), cnt]):
        eng.cover(s)
        v, d, sz, cp, wr, la = wbstate(eng, c, s)
        li = c.n0 - 1
        eng.oblige(s, And(v.len == c.n0, sz(li) == c.size0.get(li) - cnt, d(li) == c.data0.get(li), cp(li) == c.cap0.get(li), la == 0,
                          wr == c.wr0 - sx(cnt)), 'returns-exactly-count-bytes')
        wb_unchanged_list(eng, c, s, li, 'earlier-blocks-unchanged')
        eng.oblige(s, And(sz(li) >= 0, wr >= 0), 'nonnegative')
        no_release(eng, s)


def wb_counts(eng, c, st):
    """ghost abstraction used by Reserve/Append: (byte count, last, blocks full)"""
    pass


@PROP.job('WriteBuffer::Reserve', 'buf')
def j_reserve(eng):
    """over the contracts of Next / BackUp / ByteCount proved above"""
    c = flat(eng)
    st = State()
    wb = eng.new_obj(st, 'wb', 'cells', size=eng.off('SZ_WB'))
    eng.set_vptr(st, wb, 'sofa::pbrpc::WriteBuffer')
    W = fresh('written', 64)
    st.assume(And(W >= 0, W < (1 << 44)))
    st.ghost['written'] = W
    st.ghost['lastn'] = BV(0, 32)
    cnt = fresh('count', 32)
    st.assume(cnt > 0)

    def nxt(e, s, a, n):
        s2 = s.copy()
        k = fresh('chunk', 32)
        s.assume(And(k > 0, k <= MAXB))
        e.store(s, a[1], ('ptr',), fresh('chunkp', 64))
        e.store(s, a[2], ('i', 32), k)
        e.setghost(s, 'written', z3.simplify(s.ghost['written'] + sx(k)))
        e.setghost(s, 'lastn', k)
        s2.event('oom')
        return [(s, TRUE), (s2, FALSE)]

    def backup(e, s, a, n):
        e.oblige(s, And(s.ghost['lastn'] > 0, a[1] >= 0, a[1] <= s.ghost['lastn']), 'BackUp-precondition')
        e.setghost(s, 'written', z3.simplify(s.ghost['written'] - sx(a[1])))
        e.setghost(s, 'lastn', BV(0, 32))
    eng.contract(r'^sofa::pbrpc::WriteBuffer::Next\(', nxt, trusted=False)
    eng.contract(r'^sofa::pbrpc::WriteBuffer::BackUp\(', backup, trusted=False)
    eng.contract(r'^sofa::pbrpc::WriteBuffer::ByteCount\(', lambda e, s, a, n: s.ghost['written'], trusted=False)

    def inv(eng, ctx):
        out = []
        for nm, g in loop_ints(eng, ctx):
            out.append(('sum[%s]' % nm, lambda s, e, g=g: And(g(s, e) + s.ghost['written'] == W + sx(cnt), g(s, e) >= 0, g(s, e) <= sx(cnt))))
        return out
    eng.loopspecs.append(('Reserve', inv))
    kinds = set()
    fn = eng.find(r'^sofa::pbrpc::WriteBuffer::Reserve\(')
    for s, r in eng.call(st, fn, [P(wb), cnt]):
        eng.cover(s)
        if any(e[0] == 'oom' for e in s.events):
            kinds.add(0)
            eng.oblige(s, r == -1, 'failure-is-minus-one')
        else:
            kinds.add(1)
            eng.oblige(s, And(r == W, s.ghost['written'] == W + sx(cnt)), 'reserves-exactly-count-bytes-at-the-old-end')
    eng.oblige(st, z3.BoolVal(kinds == {0, 1}), 'both-outcomes')


@PROP.job('WriteBuffer::SetData', 'buf')
def j_setdata(eng):
    c = flat(eng)
    eng.auto_hints = False
    st = mkwb(eng, c, back=False, rich=False)     # the weaker half of the invariant is enough here
    data0, size0, cap0, n0, S = c.data0, c.size0, c.cap0, c.n0, c.ps.S
    pos, size = fresh('pos', 64), fresh('size', 32)
    st.assume(And(pos >= 0, size > 0, pos + sx(size) <= c.wr0, pos < (1 << 44)))
    src = eng.new_obj(st, 'src', 'bytes', size=sx(size))
    sarr = eng.ost(st, src).arr
    # an arbitrary byte of the buffer: block i0, offset o0
    i0, o0 = fresh('i0', 64), fresh('o0', 64)
    st.assume(And(z3.ULT(i0, n0), z3.ULT(o0, sx(size0.get(i0)))))
    c.ps.around(st, i0)
    x0 = S(i0) + o0
    a0 = data0.get(i0) + o0
    st.forall(lambda k: Implies(And(z3.ULT(k, n0), k != i0), Not(z3.ULT(a0 - data0.get(k), sx(size0.get(k))))), 'blocks-disjoint')
    eng.local_hints = [n0, i0]
    eng.first_timeout = 400
    before = c.mem0.get(a0)
    seqo = c.v0.obj

    def memat(s):
        return eng.ost(s, c.mem).arr.get(a0)

    def cur_cands(eng, ctx):
        out = []
        its = loop_iters(eng, ctx, seqo)
        ints = loop_ints(eng, ctx)
        for inm, ig in its:
            out.append(('it<=n[%s]' % inm, lambda s, e, ig=ig: z3.ULE(ig(s, e), n0)))
            offs = [('0', lambda s, e: c64(0))] + ints
            for onm, og in offs:
                cur = lambda s, e, ig=ig, og=og: S(ig(s, e)) + og(s, e)
                out.append(('off-in-block[%s,%s]' % (inm, onm), lambda s, e, ig=ig, og=og: And(
                    og(s, e) >= 0, Implies(z3.ULT(ig(s, e), n0), og(s, e) <= sx(size0.get(ig(s, e)))), Implies(ig(s, e) == n0, og(s, e) == 0))))
                out.append(('cur==pos[%s,%s]' % (inm, onm), lambda s, e, cur=cur: cur(s, e) == pos))
                for rnm, rg in ints:
                    if rnm == onm:
                        continue
                    out.append(('seek[%s,%s,%s]' % (inm, onm, rnm), lambda s, e, cur=cur, rg=rg: And(
                        rg(s, e) + cur(s, e) == pos, rg(s, e) >= 0)))
                    # copying: rg bytes are left; the cursor may stay behind once nothing is left
                    out.append(('copy[%s,%s,%s]' % (inm, onm, rnm), lambda s, e, cur=cur, rg=rg: And(
                        Or(rg(s, e) == 0, rg(s, e) + cur(s, e) == pos + sx(size)), rg(s, e) >= 0, rg(s, e) <= sx(size))))
                    for pnm, ty in ctx.phis:
                        v = ctx.env0[pnm]
                        if isinstance(v, P) and v.obj is src:
                            out.append(('src[%s,%s,%s,%s]' % (inm, onm, rnm, pnm), lambda s, e, cur=cur, rg=rg, pnm=pnm: Or(
                                rg(s, e) == 0, e[pnm].offterm() == cur(s, e) - pos)))
        for rnm, rg in [('nothing-copied', lambda s, e: sx(size))] + ints:
            out.append(('content[%s]' % rnm, lambda s, e, rg=rg: memat(s) == z3.If(
                And(z3.ULE(pos, x0), z3.ULT(x0, pos + sx(size) - rg(s, e))), sarr.get(x0 - pos), before)))
        return out
    eng.loopspecs.append(('.', cur_cands))

    def hints(eng, ctx, s, e):
        r = []
        for nm, g in loop_iters(eng, ctx, seqo):
            i = g(s, e)
            r += [i, i + 1]
        return r
    eng.loophints.append(('.', hints))
    fn = eng.find(r'^sofa::pbrpc::WriteBuffer::SetData\(')
    for s, r in eng.call(st, fn, [P(c.wb), pos, P(src), size]):
        eng.cover(s)
        v, d, sz, cp, wr, la = wbstate(eng, c, s)
        eng.oblige(s, memat(s) == z3.If(And(z3.ULE(pos, x0), z3.ULT(x0, pos + sx(size))), sarr.get(x0 - pos), before),
                   'exactly-the-addressed-bytes-change')
        eng.oblige(s, And(v.len == n0, wr == c.wr0), 'counts-kept')
        wb_unchanged_list(eng, c, s, n0, 'blocks-kept')
        no_release(eng, s)


@PROP.job('WriteBuffer::Append', 'buf')
def j_wappend(eng):
    c = flat(eng)
    st = State()
    wb = eng.new_obj(st, 'wb', 'cells', size=eng.off('SZ_WB'))
    eng.set_vptr(st, wb, 'sofa::pbrpc::WriteBuffer')
    ln = fresh('len', 64)
    so = eng.new_obj(st, 'str', 'cells', size=32)
    v = new_str(eng, st, ASym('s'), ln)
    put_str(eng, st, P(so), v)
    st.assume(z3.ULT(ln, (1 << 31)))
    W = fresh('written', 64)
    st.assume(And(W >= 0, W < (1 << 44)))
    st.ghost['written'] = W

    def reserve(e, s, a, n):
        e.oblige(s, a[1] > 0, 'Reserve-precondition')
        s2 = s.copy()
        old = s.ghost['written']
        e.setghost(s, 'written', z3.simplify(old + sx(a[1])))
        s.event('reserve', old, a[1])
        s2.event('oom')
        return [(s, old), (s2, c64(-1))]

    def setdata(e, s, a, n):
        e.oblige(s, And(a[1] >= 0, a[3] > 0, a[1] + sx(a[3]) <= s.ghost['written']), 'SetData-precondition')
        s.event('setdata', a[1], a[2], a[3])
    eng.contract(r'^sofa::pbrpc::WriteBuffer::Reserve\(', reserve, trusted=False)
    eng.contract(r'^sofa::pbrpc::WriteBuffer::SetData\(', setdata, trusted=False)
    fn = eng.find(r'^sofa::pbrpc::WriteBuffer::Append\(std')
    kinds = set()
    for s, r in eng.call(st, fn, [P(wb), P(so)]):
        eng.cover(s)
        ev = [e for e in s.events if e[0] in ('reserve', 'setdata', 'oom')]
        r = z3.simplify(r)
        if ev and ev[0][0] == 'oom':
            kinds.add('oom')
            eng.oblige(s, And(Not(r), s.ghost['written'] == W), 'out-of-memory-reported')
        elif not ev:
            kinds.add('empty')
            eng.oblige(s, And(r, ln == 0), 'nothing-written-only-for-empty-data')
        else:
            kinds.add('ok')
            good = [e[0] for e in ev] == ['reserve', 'setdata'] and isinstance(ev[1][2], P) and ev[1][2].obj is v.obj
            eng.oblige(s, z3.BoolVal(good), 'reserve-then-fill-from-the-data')
            if good:
                eng.oblige(s, And(r, ev[0][2] == z3.Extract(31, 0, ln), ev[1][1] == W, ev[1][3] == z3.Extract(31, 0, ln), ev[1][2].offterm() == 0,
                                  s.ghost['written'] == W + ln), 'appends-exactly-the-data-at-the-end')
    eng.oblige(st, z3.BoolVal(kinds == {'oom', 'empty', 'ok'}), 'all-outcomes')


@PROP.job('WriteBuffer::dtor', 'buf')
def j_wdtor(eng):
    dtor(eng, 'WriteBuffer', 'WB_list', 'SZ_WB')


@PROP.job('ReadBuffer::dtor', 'buf')
def j_rdtor(eng):
    dtor(eng, 'ReadBuffer', 'RB_list', 'SZ_RB')


def dtor(eng, cls, lst, size):
    """every block of the list is released exactly once"""
    c = flat(eng)
    st = State()
    logs(st)
    b = eng.new_obj(st, cls, 'cells', size=eng.off(size))
    v = new_seq(eng, st, 'sofa::pbrpc::BufHandle', 'list', ln=fresh('n', 64))
    st.assume(z3.ULT(v.len, MAXN))
    put_seq(eng, st, P(b, eng.off(lst)), v)
    d0 = eng.elem_field(st, v.obj, eng.ost(st, v.obj), c.D, 8)

    def inv(eng, ctx):
        out = []
        for nm, g in loop_iters(eng, ctx, v.obj):
            out.append(('in[%s]' % nm, lambda s, e, g=g: z3.ULE(g(s, e), v.len)))
            out.append(('cnt[%s]' % nm, lambda s, e, g=g: s.ghost[('free', 'n')] == g(s, e)))
        out.append(('lin', lambda s, e: s.ghost[('free', 'n')] == e['#n']))
        out.append(('log', lambda s, e: ForAll(lambda k: Implies(z3.ULT(k, s.ghost[('free', 'n')]), s.ghost[('free', 'log')].get(k) == d0.get(k)))))

        def lo(s):
            return get_seq(eng, s, P(b, eng.off(lst)))
        out.append(('popped', lambda s, e: And(lo(s).lo == s.ghost[('free', 'n')], lo(s).lo + lo(s).len == v.len)))
        return out
    eng.loopspecs.append(('.', inv))
    fn = eng.find(r'^sofa::pbrpc::%s::~%s\(' % (cls, cls))
    for s, r in eng.call(st, fn, [P(b)]):
        eng.cover(s)
        eng.oblige(s, s.ghost[('free', 'n')] == v.len, 'one-release-per-block')
        eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, v.len), s.ghost[('free', 'log')].get(k) == d0.get(k))), 'each-block-released-once')
        eng.oblige(s, s.ghost[('add', 'n')] == 0, 'no-new-references')


def mkrb(eng, c, st, name='rb'):
    """a ReadBuffer satisfying its representation invariant, read cursor at block ci, position cp in it"""
    rb = eng.new_obj(st, name, 'cells', size=eng.off('SZ_RB'))
    eng.set_vptr(st, rb, 'sofa::pbrpc::ReadBuffer')
    v = new_seq(eng, st, 'sofa::pbrpc::BufHandle', name + '_list', ln=fresh('rn', 64))
    put_seq(eng, st, P(rb, eng.off('RB_list')), v)
    st.assume(z3.ULT(v.len, MAXN))
    A = Ctx()
    A.rb, A.v, A.n = rb, v, v.len
    A.data = eng.elem_field(st, v.obj, eng.ost(st, v.obj), c.D, 8)
    A.size = eng.elem_field(st, v.obj, eng.ost(st, v.obj), c.SZ, 4)
    A.off = eng.elem_field(st, v.obj, eng.ost(st, v.obj), eng.off('BH_off'), 4)
    A.ps = PrefixSum('rsize', lambda k: sx(A.size.get(k)), A.n, MAXB)
    A.ps.axioms(st)
    st.forall(lambda k: Implies(z3.ULT(k, A.n), And(A.size.get(k) > 0, A.size.get(k) <= MAXB, A.off.get(k) >= 0, A.off.get(k) <= MAXB)), 'rb-inv')
    A.ci = fresh('cur', 64)
    st.assume(z3.ULE(A.ci, A.n))
    eng.store(st, P(rb, eng.off('RB_it')), ('ptr',), P(v.obj).addsym(A.ci, v.obj.stride))
    A.cp = fld(eng, st, rb, eng.off('RB_pos'), 4)
    A.total = fld(eng, st, rb, eng.off('RB_total'), 8)
    A.read = fld(eng, st, rb, eng.off('RB_read'), 8)
    A.last = fld(eng, st, rb, eng.off('RB_last'), 4)
    st.hint(A.ci, A.ci - 1, A.n - 1)
    st.assume(A.total == A.ps.S(A.n))
    st.assume(And(A.cp >= 0, Implies(z3.ULT(A.ci, A.n), A.cp < A.size.get(A.ci)), Implies(A.ci == A.n, A.cp == 0)))
    # bytes consumed so far == logical position
    st.assume(A.read == A.ps.S(A.ci) + sx(A.cp))
    # a pending BackUp window lies in the block before the cursor
    st.assume(And(A.last >= 0, Implies(A.last > 0, And(A.ci != 0, A.cp == 0, A.last <= A.size.get(A.ci - 1)))))
    return A


def rbstate(eng, s, A):
    it = eng.load(s, P(A.rb, eng.off('RB_it')), ('ptr',))
    if not (isinstance(it, P) and it.obj is A.v.obj):
        raise Unsupported('read cursor')
    return eng.elem_split(it)[0], fld(eng, s, A.rb, eng.off('RB_pos'), 4), fld(eng, s, A.rb, eng.off('RB_read'), 8), \
        fld(eng, s, A.rb, eng.off('RB_last'), 4)


def rb_inv_holds(eng, s, A, name):
    ci, cp, rd, la = rbstate(eng, s, A)
    h = [ci, ci - 1, ci + 1]
    s = s.copy().hint(*h)
    eng.oblige(s, And(z3.ULE(ci, A.n), cp >= 0, Implies(z3.ULT(ci, A.n), cp < A.size.get(ci)), Implies(ci == A.n, cp == 0),
                      rd == A.ps.S(ci) + sx(cp), la >= 0,
                      Implies(la > 0, And(ci != 0, cp == 0, la <= A.size.get(ci - 1)))), name + '-keeps-invariant')


def rb_frame(eng, s, A, name):
    v = get_seq(eng, s, P(A.rb, eng.off('RB_list')))
    eng.oblige(s, And(v.len == A.n, fld(eng, s, A.rb, eng.off('RB_total'), 8) == A.total), name + '-keeps-length')
    eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, A.n), And(v.at(eng, s, k, c_D(eng), 8) == A.data.get(k), v.at(eng, s, k, eng.off('BH_size'), 4) == A.size.get(k),
                                                             v.at(eng, s, k, eng.off('BH_off'), 4) == A.off.get(k)))), name + '-keeps-data')


def c_D(eng):
    return eng.off('BH_data')


@PROP.job('ReadBuffer::Next', 'buf')
def j_rnext(eng):
    c = flat(eng)
    st = State()
    logs(st)
    A = mkrb(eng, c, st)
    out = eng.new_obj(st, 'data', 'cells', size=8)
    osz = eng.new_obj(st, 'size', 'cells', size=4)
    fn = eng.find(r'^sofa::pbrpc::ReadBuffer::Next\(')
    kinds = set()
    for s, r in eng.call(st, fn, [P(A.rb), P(out), P(osz)]):
        eng.cover(s)
        r = z3.simplify(r)
        ci, cp, rd, la = rbstate(eng, s, A)
        if z3.is_true(r):
            kinds.add(1)
            p, n = ptr_term(eng.load(s, P(out), ('ptr',))), eng.load(s, P(osz), ('i', 32))
            eng.oblige(s, And(n > 0, p == A.data.get(A.ci) + sx(A.off.get(A.ci)) + sx(A.cp), n == A.size.get(A.ci) - A.cp), 'hands-out-the-next-unread-bytes')
            eng.oblige(s, And(rd == A.read + sx(n), la == n), 'count-advances')
        else:
            kinds.add(0)
            eng.oblige(s, And(Not(r), A.read == A.total, rd == A.read, la == 0), 'end-only-when-all-bytes-read')
        rb_inv_holds(eng, s, A, 'Next')
        rb_frame(eng, s, A, 'Next')
        no_release(eng, s)
    eng.oblige(st, z3.BoolVal(kinds == {0, 1}), 'both-outcomes')


@PROP.job('ReadBuffer::BackUp', 'buf')
def j_rback(eng):
    c = flat(eng)
    st = State()
    logs(st)
    A = mkrb(eng, c, st)
    cnt = fresh('count', 32)
    st.assume(And(A.last > 0, cnt >= 0, cnt <= A.last))
    fn = eng.find(r'^sofa::pbrpc::ReadBuffer::BackUp\(')
    for s, r in eng.call(st, fn, [P(A.rb), cnt]):
        eng.cover(s)
        ci, cp, rd, la = rbstate(eng, s, A)
        eng.oblige(s, And(rd == A.read - sx(cnt), la == 0), 'count-goes-back')
        rb_inv_holds(eng, s, A, 'BackUp')
        rb_frame(eng, s, A, 'BackUp')
        no_release(eng, s)


@PROP.job('ReadBuffer::Skip', 'buf')
def j_rskip(eng):
    """over the contracts of Next / BackUp"""
    c = flat(eng)
    st = State()
    rb = eng.new_obj(st, 'rb', 'cells', size=eng.off('SZ_RB'))
    eng.set_vptr(st, rb, 'sofa::pbrpc::ReadBuffer')
    T, R = fresh('total', 64), fresh('read', 64)
    st.assume(And(R >= 0, R <= T, T < (1 << 44)))
    st.ghost['read'] = R
    st.ghost['lastn'] = BV(0, 32)
    cnt = fresh('count', 32)
    st.assume(cnt >= 0)

    def nxt(e, s, a, n):
        s2 = s.copy()
        k = fresh('chunk', 32)
        s.assume(And(k > 0, k <= MAXB, s.ghost['read'] + sx(k) <= T))
        e.store(s, a[1], ('ptr',), fresh('chunkp', 64))
        e.store(s, a[2], ('i', 32), k)
        e.setghost(s, 'read', z3.simplify(s.ghost['read'] + sx(k)))
        e.setghost(s, 'lastn', k)
        s2.assume(s2.ghost['read'] == T)
        e.setghost(s2, 'lastn', BV(0, 32))
        return [(s, TRUE), (s2, FALSE)]

    def backup(e, s, a, n):
        e.oblige(s, And(s.ghost['lastn'] > 0, a[1] >= 0, a[1] <= s.ghost['lastn']), 'BackUp-precondition')
        e.setghost(s, 'read', z3.simplify(s.ghost['read'] - sx(a[1])))
        e.setghost(s, 'lastn', BV(0, 32))
    eng.contract(r'^sofa::pbrpc::ReadBuffer::Next\(', nxt, trusted=False)
    eng.contract(r'^sofa::pbrpc::ReadBuffer::BackUp\(', backup, trusted=False)

    def inv(eng, ctx):
        return [('sum[%s]' % nm, lambda s, e, g=g: And(g(s, e) + s.ghost['read'] == R + sx(cnt), g(s, e) >= 0, g(s, e) <= sx(cnt), s.ghost['read'] <= T))
                for nm, g in loop_ints(eng, ctx)]
    eng.loopspecs.append(('.', inv))
    fn = eng.find(r'^sofa::pbrpc::ReadBuffer::Skip\(')
    for s, r in eng.call(st, fn, [P(rb), cnt]):
        eng.cover(s)
        want = R + sx(cnt)
        eng.oblige(s, r == (want <= T), 'true-iff-enough-bytes')
        eng.oblige(s, s.ghost['read'] == z3.If(want <= T, want, T), 'skips-exactly-count-or-everything')
        eng.oblige(s, fld(eng, s, rb, eng.off('RB_last'), 4) == 0, 'no-backup-after-skip')


@PROP.job('ReadBuffer::Append(handle)', 'buf')
def j_rappend(eng):
    c = flat(eng)
    st = State()
    logs(st)
    A = mkrb(eng, c, st)
    h = eng.new_obj(st, 'handle', 'cells', size=16)
    d, sz, of = [eng.load(st, P(h, o), t) for o, t in ((c.D, ('ptr',)), (c.SZ, ('i', 32)), (eng.off('BH_off'), ('i', 32)))]
    st.assume(And(sz > 0, sz <= MAXB, of >= 0, of <= MAXB))
    tb = fld(eng, st, A.rb, eng.off('RB_blk'), 8)
    fn = eng.find(r'^sofa::pbrpc::ReadBuffer::Append\(sofa::pbrpc::BufHandle')
    for s, r in eng.call(st, fn, [P(A.rb), P(h)]):
        eng.cover(s)
        v = get_seq(eng, s, P(A.rb, eng.off('RB_list')))
        at = lambda k, o, n: v.at(eng, s, k, o, n)
        eng.oblige(s, And(v.len == A.n + 1, at(A.n, c.D, 8) == d, at(A.n, c.SZ, 4) == sz, at(A.n, eng.off('BH_off'), 4) == of), 'piece-added-at-the-end')
        eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, A.n), And(at(k, c.D, 8) == A.data.get(k), at(k, c.SZ, 4) == A.size.get(k), at(k, eng.off('BH_off'), 4) == A.off.get(k)))), 'earlier-pieces-kept')
        eng.oblige(s, And(fld(eng, s, A.rb, eng.off('RB_total'), 8) == A.total + sx(sz), fld(eng, s, A.rb, eng.off('RB_blk'), 8) == tb + sx(c.bs(d))), 'totals')
        eng.oblige(s, And(s.ghost[('add', 'n')] == 1, s.ghost[('add', 'log')].get(c64(0)) == d, s.ghost[('free', 'n')] == 0), 'takes-one-reference')
        it = eng.load(s, P(A.rb, eng.off('RB_it')), ('ptr',))
        eng.oblige(s, eng.elem_split(it)[0] == v.lo if isinstance(it, P) and it.obj is v.obj else FALSE, 'cursor-at-start')


@PROP.job('ReadBuffer::Append(buffer)', 'buf')
def j_rappend2(eng):
    c = flat(eng)
    st = State()
    logs(st)
    A = mkrb(eng, c, st)
    B = mkrb(eng, c, st, 'src')
    tbA, tbB = fld(eng, st, A.rb, eng.off('RB_blk'), 8), fld(eng, st, B.rb, eng.off('RB_blk'), 8)

    def cur(s):
        return get_seq(eng, s, P(A.rb, eng.off('RB_list')))
    OF = eng.off('BH_off')

    def inv(eng, ctx):
        out = []
        for nm, g in loop_iters(eng, ctx, B.v.obj):
            out.append(('it[%s]' % nm, lambda s, e, g=g: And(z3.ULE(g(s, e), B.n), cur(s).len == A.n + g(s, e), s.ghost[('add', 'n')] == g(s, e), cur(s).lo == A.v.lo)))
        out.append(('copied', lambda s, e: ForAll(lambda k: Implies(z3.ULT(k, s.ghost[('add', 'n')]), And(
            *[cur(s).at(eng, s, A.n + k, o, n) == f.get(k) for o, n, f in ((c.D, 8, B.data), (c.SZ, 4, B.size), (OF, 4, B.off))])))))
        out.append(('kept', lambda s, e: ForAll(lambda k: Implies(z3.ULT(k, A.n), And(
            *[cur(s).at(eng, s, k, o, n) == f.get(k) for o, n, f in ((c.D, 8, A.data), (c.SZ, 4, A.size), (OF, 4, A.off))])))))
        out.append(('refs', lambda s, e: ForAll(lambda k: Implies(z3.ULT(k, s.ghost[('add', 'n')]), s.ghost[('add', 'log')].get(k) == B.data.get(k)))))
        return out
    eng.loopspecs.append(('.', inv))
    fn = eng.find(r'^sofa::pbrpc::ReadBuffer::Append\(sofa::pbrpc::ReadBuffer')
    for s, r in eng.call(st, fn, [P(A.rb), P(B.rb)]):
        eng.cover(s)
        v = cur(s)
        eng.oblige(s, And(v.len == A.n + B.n, fld(eng, s, A.rb, eng.off('RB_total'), 8) == A.total + B.total,
                          fld(eng, s, A.rb, eng.off('RB_blk'), 8) == tbA + tbB), 'totals-add-up')
        eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, B.n), And(*[v.at(eng, s, A.n + k, o, n) == f.get(k) for o, n, f in ((c.D, 8, B.data), (c.SZ, 4, B.size), (OF, 4, B.off))]))), 'all-pieces-appended-in-order')
        eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, A.n), And(*[v.at(eng, s, k, o, n) == f.get(k) for o, n, f in ((c.D, 8, A.data), (c.SZ, 4, A.size), (OF, 4, A.off))]))), 'earlier-pieces-kept')
        eng.oblige(s, And(s.ghost[('add', 'n')] == B.n, s.ghost[('free', 'n')] == 0), 'one-reference-per-piece')
        eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, B.n), s.ghost[('add', 'log')].get(k) == B.data.get(k))), 'reference-on-each-piece')
        rb_frame(eng, s, B, 'Append-source')


@PROP.job('WriteBuffer::SwapOut', 'buf')
def j_swap(eng):
    """over the contract of ReadBuffer::Append(handle)"""
    c = flat(eng)
    st = mkwb(eng, c)
    rb = eng.new_obj(st, 'rb', 'cells', size=eng.off('SZ_RB'))
    eng.set_vptr(st, rb, 'sofa::pbrpc::ReadBuffer')
    # ghost list of what was appended to the reader
    for k, w in (('d', 64), ('s', 32), ('o', 32)):
        st.ghost[('rd', k)] = GArr(ASym('rd' + k, w))
    st.ghost[('rd', 'n')] = c64(0)
    data0, size0, n0 = c.data0, c.size0, c.n0
    OF = eng.off('BH_off')

    def app(e, s, a, n):
        d, z, o = e.load(s, e.padd(s, a[1], c.D), ('i', 64)), e.load(s, e.padd(s, a[1], c.SZ), ('i', 32)), e.load(s, e.padd(s, a[1], OF), ('i', 32))
        e.oblige(s, z > 0, 'Append-precondition')
        m = s.ghost[('rd', 'n')]
        for k, x in (('d', ptr_term(d)), ('s', z), ('o', o)):
            e.setghost(s, ('rd', k), GArr(AStore(s.ghost[('rd', k)], m, x)))
        e.setghost(s, ('rd', 'n'), z3.simplify(m + 1))
        e.setghost(s, 'lastref', ptr_term(d))
    eng.contract(r'^sofa::pbrpc::ReadBuffer::Append\(sofa::pbrpc::BufHandle', app, trusted=False)
    st.ghost['lastref'] = c64(0)

    def on_free(s, p):
        # the reader must already hold its own reference when the writer's one goes (unless the block is unused)
        f = s.ghost[('free', 'n')]
        eng.oblige(s, Implies(size0.get(f) > 0, And(s.ghost['lastref'] == p, s.ghost[('rd', 'n')] == f + 1)), 'reader-references-before-writer-releases', hints=[f])
    c.on_free = on_free

    def cur(s):
        return get_seq(eng, s, P(c.wb, eng.off('WB_list')))

    def moved(s):
        # blocks in front of the last are full, so every one of them was handed over
        f = s.ghost[('free', 'n')]
        return z3.If(And(f == n0, f != 0, size0.get(n0 - 1) == 0), f - 1, f)

    def inv(eng, ctx):
        return [('win', lambda s, e: And(cur(s).lo == s.ghost[('free', 'n')], cur(s).lo + cur(s).len == n0, z3.ULE(cur(s).len, n0))),
                ('cnt', lambda s, e: s.ghost[('rd', 'n')] == moved(s)),
                ('left', lambda s, e: ForAll(lambda k: Implies(And(z3.UGE(k, cur(s).lo), z3.ULT(k, n0)), And(
                    *[eng.elem_field(s, c.v0.obj, eng.ost(s, c.v0.obj), o, n).get(k) == f.get(k) for o, n, f in ((c.D, 8, data0), (c.SZ, 4, size0))])))),
                ('moved', lambda s, e: ForAll(lambda k: Implies(z3.ULT(k, s.ghost[('rd', 'n')]), And(
                    s.ghost[('rd', 'd')].get(k) == data0.get(k), s.ghost[('rd', 's')].get(k) == size0.get(k), s.ghost[('rd', 'o')].get(k) == 0)))),
                ('freed', lambda s, e: ForAll(lambda k: Implies(z3.ULT(k, s.ghost[('free', 'n')]), s.ghost[('free', 'log')].get(k) == data0.get(k))))]
    eng.loopspecs.append(('.', inv))
    eng.loophints.append(('.', lambda eng, ctx, s, e: [s.ghost[('free', 'n')], s.ghost[('free', 'n')] + 1]))
    fn = eng.find(r'^sofa::pbrpc::WriteBuffer::SwapOut\(')
    for s, r in eng.call(st, fn, [P(c.wb), P(rb)]):
        eng.cover(s)
        v = cur(s)
        g = s.ghost
        eng.oblige(s, And(v.len == 0, *[fld(eng, s, c.wb, eng.off(x), n) == 0 for x, n in (('WB_write', 8), ('WB_last', 4), ('WB_cap', 8), ('WB_blk', 8))]), 'writer-is-empty-afterwards')
        eng.oblige(s, g[('rd', 'n')] == z3.If(And(n0 != 0, size0.get(n0 - 1) == 0), n0 - 1, n0), 'every-used-block-moves')
        eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, g[('rd', 'n')]), And(g[('rd', 'd')].get(k) == data0.get(k), g[('rd', 's')].get(k) == size0.get(k), g[('rd', 'o')].get(k) == 0))), 'in-order-same-bytes-from-block-start')
        eng.oblige(s, g[('free', 'n')] == n0, 'writer-releases-each-block')
        eng.oblige(s, ForAll(lambda k: Implies(z3.ULT(k, n0), g[('free', 'log')].get(k) == data0.get(k))), 'writer-releases-each-block-once')
        eng.oblige(s, eng.ost(s, c.mem).arr.get(fresh('a', 64)) is not None and z3.BoolVal(eng.ost(s, c.mem).arr is c.mem0), 'no-byte-touched')


@PROP.job('ReadBuffer::ToString', 'buf')
def j_tostr(eng):
    c = flat(eng)
    st = State()
    logs(st)
    A = mkrb(eng, c, st)
    ro = eng.new_obj(st, 'ret', 'cells', size=32)
    S = A.ps.S
    A.ps.lemmas(eng, st)
    i0, o0 = fresh('i0', 64), fresh('o0', 64)
    st.assume(And(z3.ULT(i0, A.n), z3.ULT(o0, sx(A.size.get(i0)))))
    A.ps.around(st, i0)
    want = c.mem0.get(A.data.get(i0) + sx(A.off.get(i0)) + o0)

    def out(s):
        v = s.ghost.get(('str', ro.id, 0))
        return str_arr(eng, s, v), v.len

    def inv(eng, ctx):
        r = []
        for nm, g in loop_iters(eng, ctx, A.v.obj):
            r.append(('len[%s]' % nm, lambda s, e, g=g: And(z3.ULE(g(s, e), A.n), out(s)[1] == S(g(s, e)))))
            r.append(('byte[%s]' % nm, lambda s, e, g=g: Implies(z3.ULT(i0, g(s, e)), out(s)[0].get(S(i0) + o0) == want)))
        return r
    eng.loopspecs.append(('.', inv))
    eng.loophints.append(('.', lambda eng, ctx, s, e: [x for nm, g in loop_iters(eng, ctx, A.v.obj) for x in (g(s, e), g(s, e) + 1)]))
    fn = eng.find(r'^sofa::pbrpc::ReadBuffer::ToString')
    for s, r in eng.call(st, fn, [P(ro), P(A.rb)]):
        eng.cover(s)
        eng.oblige(s, out(s)[1] == A.total, 'length')
        eng.oblige(s, out(s)[0].get(S(i0) + o0) == want, 'every-byte-in-order')
        rb_frame(eng, s, A, 'ToString')


@PROP.job('constructors', 'buf')
def j_ctor(eng):
    c = flat(eng)
    for cls, sz in (('WriteBuffer', 'SZ_WB'), ('ReadBuffer', 'SZ_RB')):
        st = State()
        logs(st)
        b = eng.new_obj(st, cls, 'cells', size=eng.off(sz))
        eng.contract(r'^google::protobuf::io::ZeroCopy(In|Out)putStream::ZeroCopy', nop)
        fn = eng.find(r'^sofa::pbrpc::%s::%s\(\)' % (cls, cls))
        for s, r in eng.call(st, fn, [P(b)]):
            eng.cover(s)
            if cls == 'WriteBuffer':
                v = get_seq(eng, s, P(b, eng.off('WB_list')))
                eng.oblige(s, And(v.len == 0, *[fld(eng, s, b, eng.off(x), n) == 0 for x, n in (('WB_write', 8), ('WB_last', 4), ('WB_cap', 8), ('WB_blk', 8))]), 'new-writer-is-empty')
                eng.oblige(s, z3.ULE(fld(eng, s, b, eng.off('WB_factor'), 8), 9), 'default-block-factor-in-range')
            else:
                v = get_seq(eng, s, P(b, eng.off('RB_list')))
                it = eng.load(s, P(b, eng.off('RB_it')), ('ptr',))
                eng.oblige(s, And(v.len == 0, *[fld(eng, s, b, eng.off(x), n) == 0 for x, n in (('RB_total', 8), ('RB_pos', 4), ('RB_last', 4), ('RB_read', 8), ('RB_blk', 8))]), 'new-reader-is-empty')
                eng.oblige(s, z3.BoolVal(isinstance(it, P) and it.obj is v.obj), 'cursor-on-own-list')
