"""F01: the client cuts the incoming byte stream into messages exactly as framed, whatever the packet boundaries."""
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.cont import *

PROP = Prop('F01')
PROP.assumptions = ['std::deque behaves as a sequence; sofa::pbrpc::shared_ptr keeps the object it was given (ownership is B01/C++)',
                    'a stream position stays below 2^60 (no connection carries 2^60 bytes)',
                    'one receive handler of a stream runs at a time (receive token, proved in job try_start_receive)',
                    'ReadBuffer::Append adds the bytes of the piece at the end (proved in B01)',
                    'boost::asio delivers the received bytes in order into the region it was given']
TU = '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/rpc_message_stream.h>
using namespace sofa::pbrpc;
extern "C" bool vf_on_sending(const ReadBufferPtr*, int);
extern "C" void vf_on_sent(const ReadBufferPtr*, int);
extern "C" void vf_on_send_failed(int, const ReadBufferPtr*, int);
extern "C" void vf_on_received(const ReadBufferPtr*, int, int64);
extern "C" void vf_on_closed();
typedef RpcMessageStream<int> MS;
struct VStream : public MS {
    VStream(IOService& s, const RpcEndpoint& e) : MS(ROLE_TYPE_CLIENT, s, e) {}
    bool on_sending(const ReadBufferPtr& m, const int& c) { return vf_on_sending(&m, c); }
    void on_sent(const ReadBufferPtr& m, const int& c) { vf_on_sent(&m, c); }
    void on_send_failed(RpcErrorCode e, const ReadBufferPtr& m, const int& c) { vf_on_send_failed(e, &m, c); }
    void on_received(const ReadBufferPtr& m, int a, int64 b) { vf_on_received(&m, a, b); }
    void on_closed() { vf_on_closed(); }
};
template class sofa::pbrpc::RpcMessageStream<int>;
extern "C" void* vf_mk(IOService& s, const RpcEndpoint& e) { return new VStream(s, e); }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_hdr, MS, _receiving_header) OFF(o_rhs, MS, _received_header_size) OFF(o_ident, MS, _receiving_header_identified)
OFF(o_rms, MS, _received_message_size) OFF(o_msg, MS, _receiving_message) OFF(o_tran, MS, _tran_buf)
OFF(o_rdata, MS, _receiving_data) OFF(o_rsize, MS, _receiving_size) OFF(o_status, MS, _status)
OFF(o_rtok, MS, _receive_token) OFF(o_stok, MS, _send_token) OFF(o_rq, MS, _read_quota_token) OFF(o_wq, MS, _write_quota_token)
OFF(o_role, MS, _role_type) OFF(o_fc, MS, _flow_controller) OFF(o_mpbs, MS, _max_pending_buffer_size)
OFF(o_pbs, MS, _pending_buffer_size) OFF(o_sbs, MS, _swapped_buffer_size)
OFF(o_trc, MS, _total_received_count) OFF(o_trs, MS, _total_received_size)
OFF(BH_data, BufHandle, data) OFF(BH_size, BufHandle, size) OFF(BH_off, BufHandle, offset)
OFF(RI_msg, MS::ReceivedItem, message) OFF(RI_meta, MS::ReceivedItem, meta_size) OFF(RI_data, MS::ReceivedItem, data_size)
extern "C" const unsigned long SZ_MS = sizeof(VStream);
extern "C" const unsigned long SZ_RI = sizeof(MS::ReceivedItem);
'''
PROP.tu('stream', TU)

H = 24
MAXPOS = 1 << 60
MAGIC = b'SOFA'


def i64(a, p):
    return z3.Concat(*[a.get(z3.simplify(p + k)) for k in range(7, -1, -1)])


def i32(a, p):
    return z3.Concat(*[a.get(z3.simplify(p + k)) for k in range(3, -1, -1)])


class Frame:
    """the framing specification over the ghost stream B: the header words of the message starting at p (little endian)"""

    def __init__(self, B):
        self.B = B
        f = lambda n, w: z3.Function(n, z3.BitVecSort(64), z3.BitVecSort(w))
        self.magic, self.meta, self.data, self.size = f('magic', 32), f('meta', 32), f('data', 64), f('size', 64)

    def word(self, p, k):
        """byte k of the header at p, as a slice of its header word"""
        for base, w, fn in ((0, 4, self.magic), (4, 4, self.meta), (8, 8, self.data), (16, 8, self.size)):
            if base <= k < base + w:
                return z3.Extract((k - base) * 8 + 7, (k - base) * 8, fn(p))

    def byte(self, p, k):
        v = cval(k)
        if v is not None:
            return self.word(p, v)
        return self.B.get(z3.simplify(p + k))

    def define(self, st, p):
        """the header words are those bytes of the stream (definition)"""
        for k in range(H):
            st.assume(self.B.get(z3.simplify(p + k)) == self.word(p, k))

    def valid(self, p):
        m, d, t = self.meta(p), self.data(p), self.size(p)
        w = lambda x: z3.SignExt(70 - x.size(), x)
        return And(self.magic(p) == int.from_bytes(MAGIC, 'little'), m >= 0, d >= 0, t >= 0, w(m) + w(d) == w(t))


class Ctx:
    pass


def mk(eng):
    c = Ctx()
    st = State()
    c.B = ASym('B')
    c.F = Frame(c.B)
    c.T = eng.new_obj(st, 'tran', 'bytes', size=fresh('trancap', 64))
    cap = c.T.size
    st.assume(And(z3.UGT(cap, 0), z3.ULE(cap, 1 << 20)))
    c.off0, c.n = fresh('off', 64), fresh('n', 32)
    c.pos0 = fresh('pos0', 64)
    st.assume(And(c.n >= 0, z3.ULE(c.off0, cap), z3.ULE(sx(c.n), cap - c.off0)))
    st.assume(z3.ULE(c.pos0, MAXPOS))
    c.end = c.pos0 + sx(c.n)
    c.delta = fresh('delta', 64)
    st.assume(c.pos0 == c.off0 + c.delta)
    # the received bytes are the next bytes of the stream
    tarr = ASym('tranbytes')
    eng.ost(st, c.T).arr = AFn(lambda i: z3.If(And(z3.UGE(i, c.off0), z3.ULT(i, c.off0 + sx(c.n))), c.B.get(z3.simplify(i + c.delta)), tarr.get(i)))
    c.S = eng.new_obj(st, 'stream', 'cells', size=eng.off('SZ_MS'))
    eng.set_vptr(st, c.S, 'VStream')
    c.hdr = eng.region(st, c.S, eng.off('o_hdr'), H, 'header')
    eng.store(st, P(c.S, eng.off('o_tran')), ('ptr',), P(c.T))
    c.x = fresh('x', 64)       # an arbitrary byte index of a message body
    st.ghost['ms'] = fresh('ms', 64)
    st.ghost['cur'] = fresh('cur', 64)
    st.ghost['len'] = fresh('len', 64)
    st.ghost['byte'] = fresh('byte', 8)
    st.ghost['count'] = c64(0)
    c.st = st
    return c, st


def f(eng, c, s, name, bits):
    return eng.load(s, P(c.S, eng.off(name)), ('i', bits))


def canon(eng, c, s, have):
    """header bytes k with have(k) are stated as the stream bytes they are equal to"""
    o = eng.wst(s, c.hdr)
    a, ms = o.arr, s.ghost['ms']
    o.arr = AFn(lambda k: z3.simplify(z3.If(have(k), c.F.byte(ms, k), a.get(k))))


def setf(eng, c, s, name, size, v):
    eng.wst(s, c.S).cells[eng.off(name)] = (size, v)


def head_cases(eng, c, pos):
    """the two shapes of the framing invariant in solved form (a restatement of the invariant 'framing', whose survival is an
    obligation of the job): where the current message starts, and the header bytes it holds"""
    def no(s):
        setf(eng, c, s, 'o_ident', 1, BV(0, 8))
        rhs = f(eng, c, s, 'o_rhs', 32)
        s.ghost['ms'] = z3.simplify(pos - sx(rhs))
        s.ghost['len'] = c64(0)
        setf(eng, c, s, 'o_rms', 8, c64(0))
        canon(eng, c, s, lambda k: z3.UGT(sx(rhs), k))
        s.assume(Inv(eng, c, s, pos))

    def yes(s):
        setf(eng, c, s, 'o_ident', 1, BV(1, 8))
        rms = f(eng, c, s, 'o_rms', 64)
        s.ghost['ms'] = z3.simplify(pos - H - rms)
        s.ghost['len'] = rms
        canon(eng, c, s, lambda k: TRUE)
        s.assume(Inv(eng, c, s, pos))
    return no, yes


def copied(c):
    def after(eng, s, dst, n):
        if not (isinstance(dst, P) and dst.obj is c.hdr):
            return [s]
        d = dst.offterm()
        m = z3.simplify(d + n)
        a, ms = eng.ost(s, c.hdr).arr, s.ghost['ms']
        k = fresh('k', 64)
        if not eng.proved(s, Implies(And(z3.ULT(k, H), z3.ULT(k, m)), a.get(k) == c.B.get(z3.simplify(ms + k)))):
            return [s]
        out = []
        for full in (True, False):
            s2 = s.copy()
            s2.assume((m == H) if full else (m != H))
            if eng.feasible(s2, TRUE):
                canon(eng, c, s2, (lambda k: TRUE) if full else (lambda k: z3.ULT(k, m)))
                out.append(s2)
        return out
    return after


def Inv(eng, c, s, pos):
    g = s.ghost
    ms = g['ms']
    ident = f(eng, c, s, 'o_ident', 8)
    rhs, rms = f(eng, c, s, 'o_rhs', 32), f(eng, c, s, 'o_rms', 64)
    px = ptr_term(eng.load(s, P(c.S, eng.off('o_msg')), ('ptr',)))
    ha = eng.ost(s, c.hdr).arr
    have = lambda k: ha.get(c64(k)) == c.F.word(ms, k)
    no = And(ident == 0, rhs >= 0, rhs < H, pos == ms + sx(rhs), rms == 0, g['len'] == 0,
             *[Implies(BV(k, 32) < rhs, have(k)) for k in range(H)])
    yes = And(ident == 1, c.F.valid(ms), pos == ms + H + rms, rms >= 0, rms < c.F.size(ms), rms <= MAXPOS * 2, g['len'] == rms,
              *[have(k) for k in range(H)])
    return And(px == g['cur'], px != 0, z3.ULE(ms, pos), z3.ULE(pos, MAXPOS + (1 << 20)),
               z3.ULE(ident, 1), z3.Implies(ident == 0, no), z3.Implies(ident == 1, yes), Implies(z3.ULT(c.x, g['len']), g['byte'] == c.B.get(z3.simplify(ms + H + c.x))))


def new_message(e, s, p):
    e.setghost(s, 'cur', ptr_term(p))
    e.setghost(s, 'len', c64(0))
    e.setghost(s, 'byte', fresh('byte', 8))


def contracts(eng, c):
    def op_new(e, s, a, n):
        p = fresh('newbuf', 64)
        s.assume(p != 0)
        return p

    def reset(e, s, a, n):
        e.store(s, a[0], ('ptr',), a[1])
        if isinstance(a[0], P) and a[0].obj is c.S and a[0].off == eng.off('o_msg'):
            new_message(e, s, a[1])

    def app(e, s, a, n):
        p = ptr_term(a[0])
        d = e.load(s, e.padd(s, a[1], e.off('BH_data')), ('ptr',))
        sz = e.load(s, e.padd(s, a[1], e.off('BH_size')), ('i', 32))
        of = e.load(s, e.padd(s, a[1], e.off('BH_off')), ('i', 32))
        e.oblige(s, p == s.ghost['cur'], 'piece-goes-to-the-message-being-received')
        e.oblige(s, ptr_term(d) == c.T.addr, 'piece-is-in-the-receive-block')
        e.oblige(s, And(sz > 0, of >= 0, z3.ULE(sx(of) + sx(sz), c.T.size)), 'piece-inside-the-block')
        ln = s.ghost['len']
        arr = e.ost(s, c.T).arr
        e.setghost(s, 'byte', z3.simplify(z3.If(And(z3.UGE(c.x, ln), z3.ULT(c.x - ln, sx(sz))), arr.get(z3.simplify(sx(of) + c.x - ln)), s.ghost['byte'])))
        e.setghost(s, 'len', z3.simplify(ln + sx(sz)))

    def push(e, s, a, n):
        L = lambda o, t: e.load(s, e.padd(s, a[1], e.off(o)), t)
        g = s.ghost
        ms = g['ms']
        e.oblige(s, c.F.valid(ms), 'delivered-message-has-a-wellformed-header')
        e.oblige(s, And(L('RI_meta', ('i', 32)) == c.F.meta(ms), L('RI_data', ('i', 64)) == c.F.data(ms)), 'sizes-as-framed')
        e.oblige(s, ptr_term(L('RI_msg', ('ptr',))) == g['cur'], 'delivers-the-message-received')
        e.oblige(s, g['len'] == c.F.size(ms), 'body-length-as-framed')
        e.oblige(s, Implies(z3.ULT(c.x, c.F.size(ms)), g['byte'] == c.B.get(z3.simplify(ms + H + c.x))), 'body-bytes-are-the-stream-bytes')
        e.setghost(s, 'ms', z3.simplify(ms + H + c.F.size(ms)))
        e.setghost(s, 'cur', c64(0))     # owned by the delivery queue from now on: must not be extended any more
        e.setghost(s, 'len', c64(0))
        e.setghost(s, 'count', z3.simplify(g['count'] + 1))
    eng.contract(r'^operator new\(unsigned long\)$', op_new)
    eng.contract(r'^sofa::pbrpc::ReadBuffer::ReadBuffer\(\)', nop, trusted=False)
    eng.contract(r'^(void )?sofa::pbrpc::shared_ptr<sofa::pbrpc::ReadBuffer>::reset', reset)
    eng.contract(r'^sofa::pbrpc::ReadBuffer::Append\(sofa::pbrpc::BufHandle', app, trusted=False)
    eng.contract(r'^std::deque<sofa::pbrpc::RpcMessageStream<int>::ReceivedItem, .*>::(push|emplace)_back', push)
    eng.contract(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(3)))


def stream_positions(eng, c, ctx):
    """every way a local of the loop may denote the current stream position"""
    out = []
    for nm, ty in ctx.phis:
        v = ctx.env0[nm]
        if isinstance(v, P) and v.obj is c.T:
            out.append((nm, lambda s, e, nm=nm: e[nm].offterm() + c.delta))
    for oid, o in stack_objs(eng, ctx):
        for off, (size, v) in list(ctx.st0.mem[oid].cells.items()):
            if isinstance(v, P) and v.obj is c.T:
                def g(s, e, oid=oid, off=off):
                    x = s.mem[oid].cells.get(off)
                    if x is None or not isinstance(x[1], P):
                        raise Unsupported('ptr')
                    return x[1].offterm() + c.delta
                out.append(('%d+%d' % (oid, off), g))
    for nm, g in loop_ints(eng, ctx):
        out.append((nm + ':left', lambda s, e, g=g: c.end - g(s, e)))
        out.append((nm + ':done', lambda s, e, g=g: c.pos0 + g(s, e)))
    return out


def loops(eng, c):
    def inv(eng, ctx):
        out = []
        ps = stream_positions(eng, c, ctx)
        for nm, p in ps[:1]:
            out.append(('framing[%s]' % nm, lambda s, e, p=p: And(Inv(eng, c, s, p(s, e)), z3.UGE(p(s, e), c.pos0), z3.ULE(p(s, e), c.end))))
        for k in range(1, len(ps)):
            a, b = ps[0], ps[k]
            out.append(('same-position[%s,%s]' % (a[0], b[0]), lambda s, e, a=a, b=b: a[1](s, e) == b[1](s, e)))
        return out
    eng.loopspecs.append(('.', inv))

    def cases(eng, ctx, H, env):
        ps = stream_positions(eng, c, ctx)
        if not ps:
            return None
        no, yes = head_cases(eng, c, ps[0][1](H, env))
        ident = f(eng, c, H, 'o_ident', 8)
        return [(ident == 0, no), (ident == 1, yes)]
    eng.loopcases.append(('split_and_process_message', cases))
    eng.after_memcpy = copied(c)


def framing_survived(eng, st):
    eng.oblige(st, z3.BoolVal(all(any(n.startswith('framing') for n in names) for fn, h, names in eng.loop_info) and len(eng.loop_info) > 0), 'framing-invariant-is-inductive')


@PROP.job('split_and_process_message', 'stream')
def j_split(eng):
    eng.first_timeout = 150
    c, st = mk(eng)
    contracts(eng, c)
    loops(eng, c)
    st.assume(Inv(eng, c, st, c.pos0))
    fn = eng.find(r'^sofa::pbrpc::RpcMessageStream<int>::split_and_process_message\(')
    q = eng.new_obj(st, 'queue', 'cells', size=80)
    kinds = set()
    for s, r in eng.call(st, fn, [P(c.S), P(c.T).addsym(c.off0, 1), c.n, P(q)]):
        eng.cover(s)
        ms = s.ghost['ms']
        r = z3.simplify(r)
        kinds.add(str(r))
        bad = And(z3.ULE(ms + H, c.end), Not(c.F.valid(ms)))
        eng.oblige(s, Implies(r, Inv(eng, c, s, c.end)), 'accepted-data-leaves-the-framing-invariant')
        eng.oblige(s, Implies(Not(r), bad), 'rejects-only-a-malformed-header')
    framing_survived(eng, st)
    eng.oblige(st, z3.BoolVal(len(kinds) >= 2), 'both-outcomes')


def stream_env(eng, role='o_role'):
    """a connected stream whose receive region is a symbolic part of its receive block"""
    c = Ctx()
    st = State()
    c.cap = fresh('cap', 64)
    c.T = eng.new_obj(st, 'tran', 'bytes', size=c.cap)
    c.S = eng.new_obj(st, 'stream', 'cells', size=eng.off('SZ_MS'))
    eng.set_vptr(st, c.S, 'VStream')
    c.hdr = eng.region(st, c.S, eng.off('o_hdr'), H, 'header')
    c.off0, c.rsize = fresh('off', 64), fresh('rsize', 64)
    st.assume(And(z3.ULE(c.cap, 1 << 21), z3.UGT(c.rsize, 0), z3.ULE(c.off0, c.cap), c.rsize == c.cap - c.off0))
    eng.store(st, P(c.S, eng.off('o_tran')), ('ptr',), P(c.T))
    eng.store(st, P(c.S, eng.off('o_rdata')), ('ptr',), P(c.T).addsym(c.off0, 1))
    setf(eng, c, st, 'o_rsize', 8, c.rsize)
    c.st = st
    return c, st


def region_ok(eng, c, s):
    """the next receive goes to the unused rest of the current receive block"""
    t = eng.load(s, P(c.S, eng.off('o_tran')), ('ptr',))
    d = eng.load(s, P(c.S, eng.off('o_rdata')), ('ptr',))
    n = f(eng, c, s, 'o_rsize', 64)
    if not (isinstance(t, P) and isinstance(d, P) and t.obj is d.obj):
        return FALSE
    return And(ptr_term(t) == t.obj.addr, z3.UGT(n, 0), z3.ULE(d.offterm(), t.obj.size), n == t.obj.size - d.offterm())


def stream_contracts(eng, c):
    C = eng.contract
    C(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(3)))
    C(r'^boost::system::error_code::operator bool\(\) const$', lambda e, s, a, n: s.ghost['error'])
    C(r'^boost::(asio::error|system::errc)::make_error_code', lambda e, s, a, n: None)
    C(r'^boost::system::error_code::error_code', nop)
    C(r'^boost::system::operator[!=]=\(', lambda e, s, a, n: fresh('cmp', 1))
    C(r'^boost::system::error_code::message', lambda e, s, a, n: set_str(e, s, a[0], ASym('em'), c64(3)))

    def tmalloc(e, s, a, n):
        cap = fresh('newcap', 64)
        s.assume(And(z3.UGT(cap, 0), z3.ULE(cap, 1 << 21)))
        s2 = s.copy()
        o = e.new_obj(s, 'tran2', 'bytes', size=cap)
        return [(s, P(o)), (s2, c64(0))]

    def tfree(e, s, a, n):
        p = ptr_term(a[0])
        cur = e.load(s, P(c.S, e.off('o_tran')), ('ptr',))
        e.oblige(s, ptr_term(cur) == p, 'gives-back-its-own-block')

    def tcap(e, s, a, n):
        if not isinstance(a[0], P):
            raise Unsupported('capacity of an unknown block')
        return a[0].obj.size
    C(r'^sofa::pbrpc::TranBufPool::malloc\(', tmalloc, trusted=False)
    C(r'^sofa::pbrpc::TranBufPool::free\(', tfree, trusted=False)
    C(r'^sofa::pbrpc::TranBufPool::capacity\(', tcap, trusted=False)

    def close(e, s, a, n):
        setf(e, c, s, 'o_status', 4, BV(e.off('CLOSED'), 32))
        e.setghost(s, 'closed', BV(1, 8))
    C(r'^sofa::pbrpc::RpcByteStream::close\(', close, trusted=False)


TU2 = TU + '''
extern "C" const unsigned long CLOSED = MS::STATUS_CLOSED, CONNECTED = MS::STATUS_CONNECTED, R_SERVER = MS::ROLE_TYPE_SERVER;
'''
PROP.tus['stream'] = (TU2,) + tuple(PROP.tus['stream'][1:])


@PROP.job('reset_env', 'stream')
def j_reset(eng):
    """on_connected establishes the framing invariant and an empty receive block"""
    c, st = stream_env(eng)
    c.F = Frame(ASym('B'))
    c.B = c.F.B
    c.x = fresh('x', 64)
    stream_contracts(eng, c)
    contracts(eng, c)
    for k, w in (('ms', 64), ('cur', 64), ('len', 64), ('byte', 8), ('count', 64)):
        st.ghost[k] = fresh(k, w)
    st.ghost['closed'] = BV(0, 8)
    pos = fresh('pos', 64)
    st.assume(z3.ULE(pos, MAXPOS))
    st.ghost['ms'] = pos
    fn = eng.find(r'^sofa::pbrpc::RpcMessageStream<int>::on_connected\(\)$')
    for s, r in eng.call(st, fn, [P(c.S)]):
        eng.cover(s)
        t = eng.load(s, P(c.S, eng.off('o_tran')), ('ptr',))
        eng.oblige(s, z3.simplify(r) == Not(ptr_term(t) == 0), 'connected-iff-it-has-a-block')
        eng.oblige(s, Inv(eng, c, s, pos), 'starts-at-a-message-boundary')
        if isinstance(t, P):
            eng.oblige(s, region_ok(eng, c, s), 'receives-into-its-block')


@PROP.job('on_read_some', 'stream')
def j_read(eng):
    c, st = stream_env(eng)
    stream_contracts(eng, c)
    c.n = fresh('bytes', 64)
    st.assume(z3.ULE(c.n, c.rsize))
    setf(eng, c, st, 'o_rtok', 4, BV(1, 32))
    st.ghost.update({'closed': BV(0, 8), 'delivered': c64(0), 'error': z3.Bool('io_error'), 'split': c64(0), 'started': c64(0)})
    c.items = None
    N = fresh('items', 64)
    st.assume(z3.ULE(N, 1 << 30))

    def split(e, s, a, n):
        e.oblige(s, And(ptr_term(a[1]) == c.T.addr + c.off0, sx(a[2]) == c.n), 'splits-exactly-the-received-bytes')
        e.oblige(s, s.ghost['split'] == 0, 'splits-once')
        e.setghost(s, 'split', c64(1))
        s2 = s.copy()
        v = get_seq(e, s, a[3])
        put_seq(e, s, a[3], SeqV(v.obj, v.lo, N))
        v = get_seq(e, s, a[3])
        c.seq = v
        c.at = lambda s3, i: [v.at(e, s3, i, e.off('RI_msg'), 8), v.at(e, s3, i, e.off('RI_meta'), 4), v.at(e, s3, i, e.off('RI_data'), 8)]
        e.setghost(s, 'want', v.obj)
        v2 = get_seq(e, s2, a[3])
        k = fresh('bad', 64)
        put_seq(e, s2, a[3], SeqV(v2.obj, v2.lo, k))
        e.setghost(s2, 'broken', c64(1))
        return [(s, TRUE), (s2, FALSE)]
    eng.contract(r'^sofa::pbrpc::RpcMessageStream<int>::split_and_process_message\(', split, trusted=False)

    def received(e, s, a, n):
        d = s.ghost['delivered']
        e.oblige(s, z3.ULT(d, N), 'no-message-out-of-thin-air')
        e.oblige(s, f(e, c, s, 'o_status', 32) != e.off('CLOSED'), 'nothing-delivered-after-close')
        m, me, da = c.at(s, d)
        e.oblige(s, ptr_term(e.load(s, a[0], ('ptr',))) == m, 'message-delivered-in-order')
        e.oblige(s, And(a[1] == me, a[2] == da), 'sizes-delivered-in-order')
        e.setghost(s, 'delivered', z3.simplify(d + 1))
        setf(e, c, s, 'o_status', 4, fresh('status', 32))    # the handler, or another thread, may close the stream
    eng.contract(r'^vf_on_received', received, trusted=False)

    def start(e, s, a, n):
        e.oblige(s, region_ok(e, c, s), 'next-receive-into-the-unused-rest-of-the-block')
        e.oblige(s, f(e, c, s, 'o_rtok', 32) == 0, 'receive-token-released-before-the-next-receive')
        return fresh('started', 1)
    eng.contract(r'^sofa::pbrpc::RpcMessageStream<int>::try_start_receive\(\)', start, trusted=False)

    def inv(eng, ctx):
        out = []
        g = lambda s: s.ghost['delivered']
        q = [k for k in ctx.st0.ghost if isinstance(k, tuple) and k[0] == 'seq']
        for k in q:
            out.append(('queue%r' % (k[1:],), lambda s, e, k=k: And(z3.ULE(g(s), N), s.ghost[k].len == N - g(s), s.ghost[k].lo == g(s) + ctx.st0.ghost[k].lo - g(ctx.st0))))
        return out
    eng.loopspecs.append(('on_read_some', inv))
    fn = eng.find(r'^sofa::pbrpc::RpcMessageStream<int>::on_read_some\(')
    er = eng.new_obj(st, 'ec', 'cells', size=16)
    seen = 0
    st0 = f(eng, c, st, 'o_status', 32)
    for s, r in eng.call(st, fn, [P(c.S), P(er), c.n]):
        eng.cover(s)
        live = st0 == eng.off('CONNECTED')
        err = s.ghost['error']
        closed = s.ghost['closed'] == 1
        eng.oblige(s, Implies(Not(live), And(s.ghost['delivered'] == 0, s.ghost['split'] == 0)), 'ignored-unless-connected')
        eng.oblige(s, Implies(And(live, err), And(closed, s.ghost['delivered'] == 0)), 'read-error-closes')
        if 'broken' in s.ghost:
            eng.oblige(s, And(closed, s.ghost['delivered'] == 0), 'malformed-stream-closes')
        elif cval(s.ghost['split']) == 1:
            seen += 1
            eng.oblige(s, Or(closed, s.ghost['delivered'] == N, f(eng, c, s, 'o_status', 32) == eng.off('CLOSED')), 'every-message-delivered-unless-closed')
    eng.oblige(st, z3.BoolVal(seen > 0), 'a-delivering-path')


@PROP.job('try_start_receive', 'stream')
def j_start(eng):
    """at most one receive is in flight, into the unused part of the receive block, and only while connected, with quota, and
    (on the server side) with the send buffer not over its limit"""
    c, st = stream_env(eng)
    stream_contracts(eng, c)
    st.ghost.update({'closed': BV(0, 8), 'reads': c64(0), 'error': FALSE})

    def quota(e, s, a, n):
        e.oblige(s, z3.SignExt(32, a[1]) == c.rsize if a[1].size() == 32 else a[1] == c.rsize, 'asks-quota-for-what-it-will-read')
        q = fresh('quota', 32)
        e.setghost(s, 'quota', q)
        return q
    eng.contract(r'^sofa::pbrpc::FlowController::acquire_read_quota', quota)

    def aread(e, s, a, n):
        e.oblige(s, And(ptr_term(a[1]) == c.T.addr + c.off0, a[2] == c.rsize), 'reads-into-the-unused-rest')
        e.oblige(s, f(e, c, s, 'o_rtok', 32) == 1, 'holds-the-receive-token')
        e.oblige(s, f(e, c, s, 'o_status', 32) == e.off('CONNECTED'), 'only-when-connected')
        e.oblige(s, s.ghost['quota'] > 0, 'only-with-quota')
        e.setghost(s, 'reads', z3.simplify(s.ghost['reads'] + 1))
    eng.contract(r'^sofa::pbrpc::RpcByteStream::async_read_some', aread)
    eng.store(st, P(c.S, eng.off('o_fc')), ('ptr',), P(eng.new_obj(st, 'fc', 'cells', size=64)))    # set_flow_controller was called
    fn = eng.find(r'^sofa::pbrpc::RpcMessageStream<int>::try_start_receive\(\)')
    tok0 = f(eng, c, st, 'o_rtok', 32)
    st.assume(z3.ULE(tok0, 1))
    full = And(f(eng, c, st, 'o_role', 32) == eng.off('R_SERVER'), f(eng, c, st, 'o_pbs', 64) + f(eng, c, st, 'o_sbs', 64) > f(eng, c, st, 'o_mpbs', 64))
    quota0 = f(eng, c, st, 'o_rq', 32)
    for s, r in eng.call(st, fn, [P(c.S)]):
        eng.cover(s)
        r = z3.simplify(r)
        reads, tok = s.ghost['reads'], f(eng, c, s, 'o_rtok', 32)
        eng.oblige(s, z3.If(r, reads == 1, reads == 0), 'reports-whether-it-started')
        eng.oblige(s, Implies(r, And(tok0 == 0, tok == 1, Not(full))), 'one-receive-in-flight')
        eng.oblige(s, Implies(Not(r), tok == tok0), 'token-given-back-when-not-started')
        live = f(eng, c, st, 'o_status', 32) == eng.off('CONNECTED')
        had = s.ghost['quota'] > 0 if 'quota' in s.ghost else FALSE
        eng.oblige(s, Implies(And(live, tok0 == 0, Not(full), quota0 > 0), r == had), 'starts-whenever-it-may')
        if 'quota' in s.ghost:
            eng.oblige(s, f(eng, c, s, 'o_rq', 32) == s.ghost['quota'], 'remembers-the-quota-answer')


ALL = dict(repo=['*'], proto='vfe.proto', libs=['-lprotobuf', '-lz', '-lsnappy'], opt='-O0')
PROP.native('client', 'client.cc', args=['framing', '12'], thorough_args=['framing', '400'],
            what='real client against a scripted peer: responses cut at random places, junk messages in between, truncated and malformed endings', **ALL)
