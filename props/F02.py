"""F02: the server cuts the incoming byte stream into requests exactly as framed, whatever the packet boundaries and the parser."""
import vf.variant
exec(vf.variant.source('F01', [(r'RpcMessageStream<int>', 'RpcServerMessageStream<int>'), (r"TU = '''.*?\n'''\n", "TU = ''\n"), (r"Prop\('F01'\)", "Prop('F02')"),
                                 (r"eng.off\('o_hdr'\), H, 'header'", "eng.off('o_hdr'), 4, 'magic'")]))

PROP.jobs = [j for j in PROP.jobs if j[0] == 'try_start_receive']
PROP.natives[:] = []
PROP.tus.clear()
PROP.assumptions = ['std::vector and std::deque behave as sequences; shared_ptr keeps the object it was given',
                    'a stream position stays below 2^60 (no connection carries 2^60 bytes)',
                    'one receive handler of a stream runs at a time (receive token, proved in job try_start_receive)',
                    'ReadBuffer::Append adds the bytes of the piece at the end (proved in B01)',
                    'boost::asio delivers the received bytes in order into the region it was given',
                    'the HTTP parser obeys the parser contract stated here (property H01)']
TU = '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/rpc_server_message_stream.h>
#include <sofa/pbrpc/rpc_server_stream.h>
#include <sofa/pbrpc/binary_rpc_request_parser.cc>
using namespace sofa::pbrpc;
extern "C" bool vf_on_sending(const ReadBufferPtr*, int);
extern "C" void vf_on_sent(const ReadBufferPtr*, int);
extern "C" void vf_on_send_failed(int, const ReadBufferPtr*, int);
extern "C" void vf_on_received(const RpcRequestPtr*);
extern "C" void vf_on_closed();
extern "C" bool vf_magic(void*, const char*); extern "C" void vf_reset(void*); extern "C" int vf_parse(void*, const char*, int, int, int*); extern "C" void vf_get(void*, RpcRequestPtr*);
typedef RpcServerMessageStream<int> MS;
struct VStream : public MS {
    VStream(IOService& s, const RpcEndpoint& e) : MS(ROLE_TYPE_SERVER, s, e) {}
    bool on_sending(const ReadBufferPtr& m, const int& c) { return vf_on_sending(&m, c); }
    void on_sent(const ReadBufferPtr& m, const int& c) { vf_on_sent(&m, c); }
    void on_send_failed(RpcErrorCode e, const ReadBufferPtr& m, const int& c) { vf_on_send_failed(e, &m, c); }
    void on_received(const RpcRequestPtr& m) { vf_on_received(&m); }
    void on_closed() { vf_on_closed(); }
};
struct VFParser : RpcRequestParser {
    const char* Name() { return ""; } void Reset() { vf_reset(this); } bool CheckMagicString(const char* m) { return vf_magic(this, m); }
    int Parse(const char* b, int n, int o, int* c) { return vf_parse(this, b, n, o, c); } RpcRequestPtr GetRequest() { RpcRequestPtr p; vf_get(this, &p); return p; } };
template class sofa::pbrpc::RpcServerMessageStream<int>;
extern "C" void* vf_mk(IOService& s, const RpcEndpoint& e, void** p) { p[0] = new VFParser; p[1] = new BinaryRpcRequestParser; p[2] = new RpcServerStream(s); return new VStream(s, e); }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_hdr, MS, _magic_string) OFF(o_mrb, MS, _magic_string_recved_bytes) OFF(o_par, MS, _current_rpc_request_parser) OFF(o_vec, MS, _rpc_request_parsers) OFF(o_tran, MS, _tran_buf)
OFF(o_rdata, MS, _receiving_data) OFF(o_rsize, MS, _receiving_size) OFF(o_status, MS, _status) OFF(o_rep, MS, _remote_endpoint) OFF(o_lep, MS, _local_endpoint)
OFF(o_rtok, MS, _receive_token) OFF(o_stok, MS, _send_token) OFF(o_rq, MS, _read_quota_token) OFF(o_wq, MS, _write_quota_token)
OFF(o_role, MS, _role_type) OFF(o_fc, MS, _flow_controller) OFF(o_mpbs, MS, _max_pending_buffer_size)
OFF(o_pbs, MS, _pending_buffer_size) OFF(o_sbs, MS, _swapped_buffer_size)
OFF(o_trc, MS, _total_received_count) OFF(o_trs, MS, _total_received_size)
OFF(BH_data, BufHandle, data) OFF(BH_size, BufHandle, size) OFF(BH_off, BufHandle, offset)
OFF(q_rep, RpcRequest, _remote_endpoint) OFF(q_lep, RpcRequest, _local_endpoint) OFF(q_time, RpcRequest, _received_time)
extern "C" const unsigned long SZ_MS = sizeof(VStream), SZ_P = sizeof(BinaryRpcRequestParser), SZ_Q = sizeof(BinaryRpcRequest), SZ_EP = sizeof(RpcEndpoint), SZ_SS = sizeof(RpcServerStream);
extern "C" const unsigned long CLOSED = MS::STATUS_CLOSED, CONNECTED = MS::STATUS_CONNECTED, R_SERVER = MS::ROLE_TYPE_SERVER;
typedef BinaryRpcRequestParser BP;
OFF(p_state, BP, _state) OFF(p_n, BP, _bytes_recved) OFF(p_req, BP, _req) OFF(q_hdr, BinaryRpcRequest, _req_header) OFF(q_meta, BinaryRpcRequest, _req_meta) OFF(q_body, BinaryRpcRequest, _req_body)
extern "C" const unsigned long PS_M = BP::PS_MAGIC_STRING, PS_H = BP::PS_MSG_HEADER, PS_B = BP::PS_MSG_BODY;
'''
PROP.tu('stream', TU)
SMS = r'^sofa::pbrpc::RpcServerMessageStream<int>::'
BP = r'^sofa::pbrpc::BinaryRpcRequestParser::'
MK, _CONTRACTS = mk, contracts
eq4 = lambda c, a, ms, n: And(*[Implies(BV(k, 32) < n, a.get(c64(k)) == c.B.get(z3.simplify(ms + k))) for k in range(4)])


def smk(eng):
    """a server stream in the middle of a conversation: B is what the peer sends, ms where the current request starts, fp how far
    its parser has been fed"""
    c = Ctx()
    st = State()
    c.B = ASym('B')
    c.T = eng.new_obj(st, 'tran', 'bytes', size=fresh('trancap', 64))
    cap = c.T.size
    st.assume(And(z3.UGT(cap, 0), z3.ULE(cap, 1 << 20)))
    c.off0, c.n = fresh('off', 64), fresh('n', 32)
    c.pos0 = fresh('pos0', 64)
    st.assume(And(c.n >= 0, z3.ULE(c.off0, cap), z3.ULE(sx(c.n), cap - c.off0)))
    st.assume(z3.ULE(c.pos0, MAXPOS))
    c.end = c.pos0 + sx(c.n)
    c.delta = fresh('delta', 64)
    st.assume(c.pos0 == c.off0 + c.delta)
    tarr = ASym('tranbytes')
    eng.ost(st, c.T).arr = AFn(lambda i: z3.If(And(z3.UGE(i, c.off0), z3.ULT(i, c.off0 + sx(c.n))), c.B.get(z3.simplify(i + c.delta)), tarr.get(i)))
    c.S = eng.new_obj(st, 'stream', 'cells', size=eng.off('SZ_MS'))
    eng.set_vptr(st, c.S, 'VStream')
    c.hdr = eng.region(st, c.S, eng.off('o_hdr'), 4, 'magic')
    eng.store(st, P(c.S, eng.off('o_tran')), ('ptr',), P(c.T))
    c.par = eng.new_obj(st, 'parser', 'cells', size=64)
    eng.set_vptr(st, c.par, 'VFParser')
    z = c64(0)
    st.ghost.update({'ms': fresh('ms', 64), 'fp': fresh('fp', 64), 'active': BV(0, 8), 'ready': BV(0, 8), 'pushed': BV(0, 8), 'why': z, 'req': z, 'attr': z, 'count': z})
    c.st = st
    return c, st


def SInv(eng, c, s, pos):
    g = s.ghost
    n = f(eng, c, s, 'o_mrb', 32)
    ms = g['ms']
    par = eng.load(s, P(c.S, eng.off('o_par')), ('ptr',))
    a = eng.ost(s, c.hdr).arr
    ispar = isinstance(par, P) and par.obj is c.par
    part = And(n >= 0, n < 4, pos == ms + sx(n), eq4(c, a, ms, n), g['active'] == 0)
    whole = And(n == 4, g['active'] == 1, g['fp'] == pos, z3.ULE(ms + 4, pos), ptr_term(par) == c.par.addr)
    return And(z3.ULE(ms, pos), z3.ULE(pos, MAXPOS + (1 << 20)), g['ready'] == 0, z3.ULE(g['active'], 1), Or(part, whole))


def scases(eng, c, pos):
    def idle(s):
        n = f(eng, c, s, 'o_mrb', 32)
        s.ghost['ms'] = z3.simplify(pos - sx(n))
        s.ghost['active'] = BV(0, 8)
        s.assume(SInv(eng, c, s, pos))

    def busy(s):
        setf(eng, c, s, 'o_mrb', 4, BV(4, 32))
        s.ghost['active'] = BV(1, 8)
        s.ghost['fp'] = pos
        eng.store(s, P(c.S, eng.off('o_par')), ('ptr',), P(c.par))
        s.assume(SInv(eng, c, s, pos))
    return idle, busy


def scontracts(eng, c, chooser=True):
    C = eng.contract
    ld = lambda e, s, p: e.load(s, p, ('ptr',))
    SP = r'^((void|bool) )?sofa::pbrpc::shared_ptr<sofa::pbrpc::(RpcRequest|RpcRequestParser)>::'
    C(SP + r'(operator->|get)\(\) const', lambda e, s, a, n: ld(e, s, a[0]))
    C(SP + r'operator .*\(\) const', lambda e, s, a, n: Agg([ptr_term(ld(e, s, a[0])), c64(0)]))
    C(SP + r'operator!\(\)', lambda e, s, a, n: ptr_term(ld(e, s, a[0])) == 0)
    C(SP + r'shared_ptr\(\)', lambda e, s, a, n: e.store(s, a[0], ('ptr',), c64(0)))
    C(SP + r'shared_ptr(<.*>)?\(sofa::pbrpc::shared_ptr<', lambda e, s, a, n: e.store(s, a[0], ('ptr',), ld(e, s, a[1])))
    C(SP + r'operator=(<.*>)?\(', lambda e, s, a, n: (e.store(s, a[0], ('ptr',), ld(e, s, a[1])), a[0])[1])
    C(SP + r'reset\(\)', lambda e, s, a, n: e.store(s, a[0], ('ptr',), c64(0)))
    C(SP + r'~shared_ptr', nop)
    C(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(3)))
    C(r'^sofa::pbrpc::StringUtils::c_escape_string', lambda e, s, a, n: set_str(e, s, a[0], ASym('esc'), fresh('esclen', 64)))
    mine = lambda e, s, p: z3.BoolVal(isinstance(p, P) and p.obj is c.par)

    def choose(e, s, a, n):
        g = s.ghost
        e.oblige(s, And(f(e, c, s, 'o_mrb', 32) == 4, eq4(c, e.ost(s, c.hdr).arr, g['ms'], BV(4, 32)), g['active'] == 0), 'the-parser-is-chosen-by-the-first-four-bytes')
        s2 = s.copy()
        e.store(s2, P(c.S, e.off('o_par')), ('ptr',), c64(0))
        e.setghost(s2, 'why', c64(1))
        e.store(s, P(c.S, e.off('o_par')), ('ptr',), P(c.par))
        e.setghost(s, 'active', BV(1, 8))
        e.setghost(s, 'fp', z3.simplify(g['ms'] + 4))
        return [(s, TRUE), (s2, FALSE)]
    if chooser:
        C(SMS + r'choose_rpc_request_parser', choose, trusted=False)

    def parse(e, s, a, n):
        g = s.ghost
        e.oblige(s, And(mine(e, s, a[0]), g['active'] == 1, g['ready'] == 0), 'the-parser-chosen-for-this-request')
        e.oblige(s, And(ptr_term(a[1]) == c.T.addr, a[2] > 0, sx(a[3]) + c.delta == g['fp'], z3.ULE(g['fp'] + sx(a[2]), c.end), a[3] >= 0), 'fed-the-stream-without-gap-or-overlap')
        s0, s1 = s.copy(), s.copy()
        k = fresh('consumed', 32)
        e.store(s, a[4], ('i', 32), fresh('any', 32))
        e.setghost(s, 'why', c64(2))
        e.store(s0, a[4], ('i', 32), a[2])
        e.setghost(s0, 'fp', z3.simplify(g['fp'] + sx(a[2])))
        s1.assume(And(k >= 0, k <= a[2]))
        e.store(s1, a[4], ('i', 32), k)
        e.setghost(s1, 'fp', z3.simplify(g['fp'] + sx(k)))
        e.setghost(s1, 'ready', BV(1, 8))
        e.setghost(s1, 'pushed', BV(0, 8))
        r = fresh('request', 64)
        s1.assume(r != 0)
        e.setghost(s1, 'req', r)
        e.setghost(s1, 'attr', c64(0))
        neg = fresh('error', 32)
        s.assume(neg < 0)
        return [(s, neg), (s0, BV(0, 32)), (s1, BV(1, 32))]
    C(r'^vf_parse', parse, trusted=False)

    def get(e, s, a, n):
        e.oblige(s, And(mine(e, s, a[0]), s.ghost['ready'] == 1), 'takes-a-complete-request')
        e.store(s, a[1], ('ptr',), s.ghost['req'])
    C(r'^vf_get', get, trusted=False)

    def attr(bit, o=None):
        def h(e, s, a, n):
            e.oblige(s, And(ptr_term(a[0]) == s.ghost['req'], s.ghost['ready'] == 1), 'describes-the-request-received')
            if o:
                e.oblige(s, z3.BoolVal(isinstance(a[1], P) and a[1].obj is c.S and a[1].off == e.off(o)), 'with-the-addresses-of-its-connection')
            e.setghost(s, 'attr', z3.simplify(s.ghost['attr'] | bit))
        return h
    RQ = r'^sofa::pbrpc::RpcRequest::'
    C(RQ + r'SetLocalEndpoint', attr(1, 'o_lep'))
    C(RQ + r'SetRemoteEndpoint', attr(2, 'o_rep'))
    C(RQ + r'SetReceivedTime', attr(4))
    C(RQ + r'set_write_buffer_base_block_factor', attr(8))
    C(r'^sofa::pbrpc::ptime_now', lambda e, s, a, n: fresh('now', 64))

    def push(e, s, a, n):
        g = s.ghost
        e.oblige(s, And(ptr_term(ld(e, s, a[1])) == g['req'], g['ready'] == 1, g['pushed'] == 0), 'each-request-is-delivered-once')
        e.oblige(s, (g['attr'] & 7) == 7, 'delivered-with-its-addresses-and-time')
        e.setghost(s, 'pushed', BV(1, 8))
        e.setghost(s, 'count', z3.simplify(g['count'] + 1))
    C(r'^std::deque<sofa::pbrpc::shared_ptr<sofa::pbrpc::RpcRequest>, .*>::(push|emplace)_back', push)

    def reset(e, s, a, n):
        g = s.ghost
        e.oblige(s, Implies(g['ready'] == 1, g['pushed'] == 1), 'no-request-is-dropped')
        e.oblige(s, mine(e, s, a[0]), 'resets-the-parser-used')
        e.oblige(s, Implies(g['active'] == 1, g['ready'] == 1), 'a-request-is-not-abandoned-halfway')
        e.setghost(s, 'ms', g['fp'])
        for k in ('active', 'ready'):
            e.setghost(s, k, BV(0, 8))
    C(r'^vf_reset', reset, trusted=False)


def vfparsers(eng, c, st):
    vt = P(eng.new_obj(st, 'tmp', 'cells', size=8))
    eng.set_vptr(st, vt.obj, 'VFParser')
    vptr = eng.load(st, vt, ('ptr',))

    def pol(e, s, t):
        # whatever parser it is: its virtual functions are the contracted ones
        ob = Obj('someparser', 'cells', addr=t)
        e.wst(s, ob).cells[0] = (8, vptr)
        return P(ob)
    eng.opaque_policy = pol


def sloops(eng, c):
    def inv(eng, ctx):
        out = []
        ps = stream_positions(eng, c, ctx)
        for nm, p in ps[:1]:
            out.append(('framing[%s]' % nm, lambda s, e, p=p: And(SInv(eng, c, s, p(s, e)), z3.UGE(p(s, e), c.pos0), z3.ULE(p(s, e), c.end))))
        for k in range(1, len(ps)):
            a, b = ps[0], ps[k]
            out.append(('same-position[%s,%s]' % (a[0], b[0]), lambda s, e, a=a, b=b: a[1](s, e) == b[1](s, e)))
        return out
    eng.loopspecs.append(('.', inv))

    def cases(eng, ctx, H, env):
        ps = stream_positions(eng, c, ctx)
        if not ps:
            return None
        idle, busy = scases(eng, c, ps[0][1](H, env))
        n = f(eng, c, H, 'o_mrb', 32)
        return [(And(n >= 0, n < 4), idle), (n == 4, busy)]
    eng.loopcases.append(('split_and_process_message', cases))


@PROP.job('split_and_process_message', 'stream')
def j_split(eng):
    """the parser chosen by the first four bytes is fed exactly the following bytes; a complete request is delivered once, with its
    connection's addresses, and the next one starts at the next byte"""
    eng.first_timeout = 100
    c, st = smk(eng)
    vfparsers(eng, c, st)
    scontracts(eng, c)
    sloops(eng, c)
    idle, busy = scases(eng, c, c.pos0)
    fn = eng.find(SMS + r'split_and_process_message\(')
    q = eng.new_obj(st, 'queue', 'cells', size=80)
    kinds = set()
    s0, s1 = st.copy(), st.copy()
    n0 = f(eng, c, s0, 'o_mrb', 32)
    s0.assume(And(n0 >= 0, n0 < 4))
    idle(s0)
    busy(s1)
    for sx_ in (s0, s1):
        for s, r in eng.call(sx_, fn, [P(c.S), P(c.T).addsym(c.off0, 1), c.n, P(q)]):
            eng.cover(s)
            r = z3.simplify(r)
            kinds.add(str(r))
            eng.oblige(s, Implies(r, SInv(eng, c, s, c.end)), 'all-accepted-bytes-went-to-requests')
            eng.oblige(s, Implies(Not(r), s.ghost['why'] != 0), 'refused-only-when-unparsable')
    framing_survived(eng, st)
    eng.oblige(st, z3.BoolVal(len(kinds) >= 2), 'both-outcomes')


@PROP.job('choose_rpc_request_parser', 'stream')
def j_choose(eng):
    c, st = smk(eng)
    scontracts(eng, c, False)
    vfparsers(eng, c, st)
    N = fresh('nparsers', 64)
    st.assume(z3.ULT(N, 1 << 20))
    MATCH = z3.Function('matches', z3.BitVecSort(64), z3.BoolSort())
    at = z3.Function('parser_at', z3.BitVecSort(64), z3.BitVecSort(64))
    st.ghost['started'] = c64(0)
    st.ghost['hit'] = BV(0, 8)
    cur0 = fresh('current', 64)
    o = Obj('parsers', 'elems', stride=16)
    o.layout = [(0, 8), (8, 8)]
    vp = P(c.S, eng.off('o_vec'))
    put_seq(eng, st, vp, SeqV(o, c64(0), N))
    eng.store(st, P(c.S, eng.off('o_par')), ('ptr',), cur0)
    x = fresh('x', 64)
    v = get_seq(eng, st, vp)
    el = lambda s, i: v.at(eng, s, i, 0, 8)
    st.forall(lambda k: Implies(z3.ULT(k, N), el(st, k) != 0), 'registered-parsers')

    def magic(e, s, a, n):
        e.oblige(s, z3.BoolVal(isinstance(a[1], P) and a[1].off == 0 and a[1].obj is c.hdr) if not (isinstance(a[1], P) and a[1].obj is c.S) else z3.BoolVal(a[1].off == e.off('o_hdr')), 'judged-by-the-bytes-received')
        p = ptr_term(a[0])
        e.oblige(s, s.ghost['hit'] == 0, 'asked-only-until-one-accepts')
        e.setghost(s, 'hit', z3.simplify(z3.If(MATCH(p), BV(1, 8), BV(0, 8))))
        e.setghost(s, 'started', p)
        return MATCH(p)
    eng.contract(r'^vf_magic', magic, trusted=False)

    def inv(eng, ctx):
        out = []
        # for whatever index the loop has reached: nothing before it accepts
        for nm, i in loop_iters(eng, ctx, o):
            out.append(('tried[%s]' % nm, lambda s, e, i=i: And(z3.ULE(i(s, e), N), s.ghost['hit'] == 0)))
            out.append(('none[%s]' % nm, lambda s, e, i=i: ForAll(lambda k: Implies(z3.ULT(k, i(s, e)), Not(MATCH(el(s, k)))))))
        return out
    eng.loopspecs.append(('.', inv))
    kinds = set()
    for s, r in eng.call(st, eng.find(SMS + r'choose_rpc_request_parser'), [P(c.S)]):
        eng.cover(s)
        r = z3.simplify(r if z3.is_bool(r) else r != 0)
        kinds.add(str(r))
        cur = ptr_term(eng.load(s, P(c.S, eng.off('o_par')), ('ptr',)))
        eng.oblige(s, Implies(r, And(cur == s.ghost['started'], s.ghost['hit'] == 1)), 'the-parser-that-accepted-is-used')
        eng.oblige(s, Implies(Not(r), And(cur == 0, s.ghost['hit'] == 0)), 'none-otherwise')
        eng.oblige(s, ForAll(lambda k: Implies(And(Not(r), z3.ULT(k, N)), Not(MATCH(el(s, k))))), 'refused-only-when-no-parser-accepts')
    eng.oblige(st, z3.BoolVal(len(kinds) >= 2), 'both-outcomes')


@PROP.job('on_connected', 'stream')
def j_conn(eng):
    c, st = stream_env(eng)
    stream_contracts(eng, c)
    scontracts(eng, c)
    c.B = ASym('B')
    c.par = eng.new_obj(st, 'parser', 'cells', size=64)
    eng.set_vptr(st, c.par, 'VFParser')
    eng.store(st, P(c.S, eng.off('o_par')), ('ptr',), c64(0))          # as the constructor left it
    pos = fresh('pos', 64)
    st.assume(z3.ULE(pos, MAXPOS))
    st.ghost.update({'ms': pos, 'fp': pos, 'active': BV(0, 8), 'ready': BV(0, 8), 'pushed': BV(0, 8), 'closed': BV(0, 8)})
    for s, r in eng.call(st, eng.find(SMS + r'on_connected\(\)$'), [P(c.S)]):
        eng.cover(s)
        t = eng.load(s, P(c.S, eng.off('o_tran')), ('ptr',))
        eng.oblige(s, z3.simplify(r) == Not(ptr_term(t) == 0), 'connected-iff-it-has-a-block')
        eng.oblige(s, SInv(eng, c, s, pos), 'starts-at-a-request-boundary')
        if isinstance(t, P):
            eng.oblige(s, region_ok(eng, c, s), 'receives-into-its-block')


@PROP.job('on_read_some', 'stream')
def j_read(eng):
    c, st = stream_env(eng)
    stream_contracts(eng, c)
    scontracts(eng, c)
    c.n = fresh('bytes', 64)
    st.assume(z3.ULE(c.n, c.rsize))
    setf(eng, c, st, 'o_rtok', 4, BV(1, 32))
    st.ghost.update({'closed': BV(0, 8), 'delivered': c64(0), 'error': z3.Bool('io_error'), 'split': c64(0)})
    N = fresh('items', 64)
    st.assume(z3.ULE(N, 1 << 30))

    def split(e, s, a, n):
        e.oblige(s, And(ptr_term(a[1]) == c.T.addr + c.off0, sx(a[2]) == c.n), 'splits-exactly-the-received-bytes')
        e.oblige(s, s.ghost['split'] == 0, 'splits-once')
        e.setghost(s, 'split', c64(1))
        s2 = s.copy()
        v = get_seq(e, s, a[3])
        put_seq(e, s, a[3], SeqV(v.obj, v.lo, N))
        v = get_seq(e, s, a[3])
        c.at = lambda s3, i: v.at(e, s3, i, 0, 8)
        v2 = get_seq(e, s2, a[3])
        put_seq(e, s2, a[3], SeqV(v2.obj, v2.lo, fresh('bad', 64)))
        e.setghost(s2, 'broken', c64(1))
        return [(s, TRUE), (s2, FALSE)]
    eng.contract(SMS + r'split_and_process_message\(', split, trusted=False)

    def received(e, s, a, n):
        d = s.ghost['delivered']
        e.oblige(s, z3.ULT(d, N), 'no-request-out-of-thin-air')
        e.oblige(s, f(e, c, s, 'o_status', 32) != e.off('CLOSED'), 'nothing-delivered-after-close')
        e.oblige(s, ptr_term(e.load(s, a[0], ('ptr',))) == c.at(s, d), 'requests-delivered-in-order')
        e.setghost(s, 'delivered', z3.simplify(d + 1))
        setf(e, c, s, 'o_status', 4, fresh('status', 32))
    eng.contract(r'^vf_on_received', received, trusted=False)

    def start(e, s, a, n):
        e.oblige(s, region_ok(e, c, s), 'next-receive-into-the-unused-rest-of-the-block')
        e.oblige(s, f(e, c, s, 'o_rtok', 32) == 0, 'receive-token-released-before-the-next-receive')
        return fresh('started', 1)
    eng.contract(SMS + r'try_start_receive\(\)', start, trusted=False)

    def inv(eng, ctx):
        out = []
        g = lambda s: s.ghost['delivered']
        for k in [k for k in ctx.st0.ghost if isinstance(k, tuple) and k[0] == 'seq']:
            out.append(('queue%r' % (k[1:],), lambda s, e, k=k: And(z3.ULE(g(s), N), s.ghost[k].len == N - g(s), s.ghost[k].lo == g(s) + ctx.st0.ghost[k].lo - g(ctx.st0))))
        return out
    eng.loopspecs.append(('on_read_some', inv))
    er = eng.new_obj(st, 'ec', 'cells', size=16)
    seen = 0
    st0 = f(eng, c, st, 'o_status', 32)
    for s, r in eng.call(st, eng.find(SMS + r'on_read_some\('), [P(c.S), P(er), c.n]):
        eng.cover(s)
        live = st0 == eng.off('CONNECTED')
        closed = s.ghost['closed'] == 1
        eng.oblige(s, Implies(Not(live), And(s.ghost['delivered'] == 0, s.ghost['split'] == 0)), 'ignored-unless-connected')
        eng.oblige(s, Implies(And(live, s.ghost['error']), And(closed, s.ghost['delivered'] == 0)), 'read-error-closes')
        if 'broken' in s.ghost:
            eng.oblige(s, And(closed, s.ghost['delivered'] == 0), 'malformed-stream-closes')
        elif cval(s.ghost['split']) == 1:
            seen += 1
            eng.oblige(s, Or(closed, s.ghost['delivered'] == N, f(eng, c, s, 'o_status', 32) == eng.off('CLOSED')), 'every-request-delivered-unless-closed')
    eng.oblige(st, z3.BoolVal(seen > 0), 'a-delivering-path')


def pmk(eng):
    """the binary parser between two pieces of a request that starts at ms; it has been fed up to fp"""
    c, st = Ctx(), State()
    c.B = ASym('B')
    c.F = Frame(c.B)
    c.T = eng.new_obj(st, 'tran', 'bytes', size=fresh('trancap', 64))
    cap = c.T.size
    st.assume(And(z3.UGT(cap, 0), z3.ULE(cap, 1 << 20)))
    c.off, c.n, c.fp = fresh('off', 32), fresh('n', 32), fresh('fp', 64)
    c.x, c.ms = fresh('x', 64), fresh('ms', 64)
    st.assume(And(c.n > 0, c.off >= 0, z3.ULE(c.ms, MAXPOS), z3.ULE(sx(c.off), cap), z3.ULE(sx(c.n), cap - sx(c.off)), z3.ULE(c.fp, MAXPOS)))
    tarr = ASym('tranbytes')
    eng.ost(st, c.T).arr = AFn(lambda i: z3.If(And(z3.UGE(i, sx(c.off)), z3.ULT(i, sx(c.off) + sx(c.n))), c.B.get(z3.simplify(i - sx(c.off) + c.fp)), tarr.get(i)))
    c.P = eng.new_obj(st, 'parser', 'cells', size=eng.off('SZ_P'))
    c.Q = eng.new_obj(st, 'request', 'cells', size=eng.off('SZ_Q'))
    eng.set_vptr(st, c.P, 'sofa::pbrpc::BinaryRpcRequestParser')
    c.hdr = eng.region(st, c.Q, eng.off('q_hdr'), H, 'header')
    eng.store(st, P(c.P, eng.off('p_req')), ('ptr',), P(c.Q))
    c.body = fresh('body', 64)
    st.assume(c.body != 0)
    eng.store(st, P(c.Q, eng.off('q_body')), ('ptr',), c.body)
    st.ghost.update({'len': fresh('len', 64), 'byte': fresh('byte', 8), 'parsed': BV(0, 8), 'ms': c.ms})
    c.F.define(st, c.ms)
    c.pf = lambda s, k: eng.load(s, P(c.P, eng.off(k)), ('i', 32))
    return c, st


def PInv(eng, c, s, fp):
    ms, g = c.ms, s.ghost
    state, n = c.pf(s, 'p_state'), c.pf(s, 'p_n')
    a = eng.ost(s, c.hdr).arr
    req = eng.load(s, P(c.P, eng.off('p_req')), ('ptr',))
    body = eng.load(s, P(c.Q, eng.off('q_body')), ('ptr',))
    have = lambda k: a.get(c64(k)) == c.F.word(ms, k)
    hd = And(state == eng.off('PS_H'), n >= 4, n < H, fp == ms + sx(n), g['len'] == 0, *[Implies(BV(k, 32) < n, have(k)) for k in range(H)])
    size = c.F.size(ms)
    bd = And(state == eng.off('PS_B'), c.F.valid(ms), n >= 0, Or(n == 0, size <= (64 << 20) + H), sx(n) < size, fp == ms + H + sx(n), g['len'] == sx(n), *[have(k) for k in range(H)])
    return And(ptr_term(req) == c.Q.addr, ptr_term(body) == c.body, c.F.magic(ms) == int.from_bytes(MAGIC, 'little'), z3.ULE(ms, fp), Or(hd, bd),
               Implies(z3.ULT(c.x, g['len']), g['byte'] == c.B.get(z3.simplify(ms + H + c.x))))


def pcontracts(eng, c):
    C = eng.contract
    ld = lambda e, s, p: e.load(s, p, ('ptr',))
    SP = r'^((void|bool) )?sofa::pbrpc::shared_ptr<.*>::'
    C(SP + r'(operator->|get)\(\) const', lambda e, s, a, n: ld(e, s, a[0]))
    C(SP + r'shared_ptr(<.*>)?\(sofa::pbrpc::shared_ptr<', lambda e, s, a, n: e.store(s, a[0], ('ptr',), ld(e, s, a[1])))
    C(SP + r'reset<.*>\(', lambda e, s, a, n: e.store(s, a[0], ('ptr',), a[1]))
    C(SP + r'~shared_ptr', nop)
    C(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(3)))

    def app(e, s, a, n):
        d = e.load(s, e.padd(s, a[1], e.off('BH_data')), ('ptr',))
        sz = e.load(s, e.padd(s, a[1], e.off('BH_size')), ('i', 32))
        of = e.load(s, e.padd(s, a[1], e.off('BH_off')), ('i', 32))
        e.oblige(s, ptr_term(a[0]) == c.body, 'piece-goes-to-the-body-being-received')
        e.oblige(s, And(ptr_term(d) == c.T.addr, sz > 0, of >= 0, z3.ULE(sx(of) + sx(sz), c.T.size)), 'piece-inside-the-block')
        ln = s.ghost['len']
        arr = e.ost(s, c.T).arr
        e.setghost(s, 'byte', z3.simplify(z3.If(And(z3.UGE(c.x, ln), z3.ULT(c.x - ln, sx(sz))), arr.get(z3.simplify(sx(of) + c.x - ln)), s.ghost['byte'])))
        e.setghost(s, 'len', z3.simplify(ln + sx(sz)))
    C(r'^sofa::pbrpc::ReadBuffer::Append\(sofa::pbrpc::BufHandle', app, trusted=False)

    def meta(e, s, a, n):
        e.oblige(s, z3.BoolVal(isinstance(a[0], P) and a[0].obj is c.Q and a[0].off == e.off('q_meta')), 'into-the-meta-of-the-request')
        zs = z3.If(ptr_term(a[1]) == c.body, BV(1, 8), BV(0, 8))
        e.oblige(s, And(zs == 1, a[2] == c.F.meta(c.ms), s.ghost['len'] == c.F.size(c.ms)), 'the-meta-is-the-first-part-of-the-whole-message')
        s2 = s.copy()
        e.setghost(s, 'parsed', BV(1, 8))
        e.setghost(s2, 'parsed', BV(2, 8))
        return [(s, TRUE), (s2, FALSE)]
    C(r'^google::protobuf::MessageLite::ParseFromBoundedZeroCopyStream', meta)

    def after(e, s, dst, n):
        if not (isinstance(dst, P) and dst.obj is c.hdr):
            return [s]
        m = z3.simplify(dst.offterm() + n)
        a = e.ost(s, c.hdr).arr
        k = fresh('k', 64)
        if not e.proved(s, Implies(And(z3.ULT(k, H), z3.ULT(k, m)), a.get(k) == c.B.get(z3.simplify(c.ms + k)))):
            return [s]
        out = []
        for full in (True, False):
            s2 = s.copy()
            s2.assume((m == H) if full else (m != H))
            if e.feasible(s2, TRUE):
                canon(e, c, s2, (lambda k: TRUE) if full else (lambda k: z3.ULT(k, m)))
                out.append(s2)
        return out
    eng.after_memcpy = after


@PROP.job('Parse', 'stream')
def j_parse(eng):
    """whatever pieces it is fed, the binary parser reports a request exactly when the message as framed is complete, with the
    body and meta of the stream, having used no byte behind it; it refuses only malformed, oversized or undecodable messages"""
    c, st = pmk(eng)
    pcontracts(eng, c)
    out = eng.new_obj(st, 'consumed', 'cells', size=4)
    kinds = set()
    for part in ('PS_H', 'PS_B'):
        s0 = st.copy()
        eng.store(s0, P(c.P, eng.off('p_state')), ('i', 32), BV(eng.off(part), 32))
        n0 = c.pf(s0, 'p_n')
        if part == 'PS_H':
            s0.ghost['len'] = c64(0)
            canon(eng, c, s0, lambda k: z3.UGT(sx(n0), k))
        else:
            s0.ghost['len'] = z3.simplify(sx(n0))
            canon(eng, c, s0, lambda k: TRUE)
        s0.assume(PInv(eng, c, s0, c.fp))
        for s, r in eng.call(s0, eng.find(BP + r'Parse\('), [P(c.P), P(c.T), c.n, c.off, P(out)]):
            eng.cover(s)
            used = eng.load(s, P(out), ('i', 32))
            g = s.ghost
            size, end = c.F.size(c.ms), c.fp + sx(c.n)
            r = z3.simplify(r)
            kinds.add(str(r))
            whole = And(c.F.valid(c.ms), z3.UGE(end, c.ms + H), size >= 0, z3.ULE(size, end - c.ms - H))
            eng.oblige(s, Or(r == 0, r == 1, r == -1), 'known-outcome')
            eng.oblige(s, Implies(r == 0, used == c.n), 'asks-for-more-only-when-all-is-used')
            eng.oblige(s, Implies(r == 0, PInv(eng, c, s, end)), 'between-two-pieces')
            eng.oblige(s, Implies(r == 1, And(c.F.valid(c.ms), c.fp + sx(used) == c.ms + H + size, used >= 0, used <= c.n)), 'a-request-ends-where-it-is-framed-to-end')
            eng.oblige(s, Implies(r == 1, And(g['len'] == size, Or(g['parsed'] == 1, size == 0))), 'a-request-is-complete')
            eng.oblige(s, Implies(And(r == 1, z3.ULT(c.x, size)), g['byte'] == c.B.get(z3.simplify(c.ms + H + c.x))), 'body-bytes-are-the-stream-bytes')
            eng.oblige(s, Implies(r == -1, Or(And(z3.UGE(end, c.ms + H), Not(c.F.valid(c.ms))), g['parsed'] == 2, And(c.F.valid(c.ms), size > (64 << 20)))), 'refuses-only-what-is-malformed')
    eng.oblige(st, z3.BoolVal(len(kinds) >= 3), 'all-outcomes')


@PROP.job('CheckMagicString', 'stream')
def j_magic(eng):
    c, st = pmk(eng)
    pcontracts(eng, c)
    m = eng.new_obj(st, 'magic', 'bytes', size=c64(4), arr=AFn(lambda i: c.B.get(z3.simplify(c.ms + i))))
    # as Reset leaves it
    eng.store(st, P(c.P, eng.off('p_state')), ('i', 32), BV(eng.off('PS_M'), 32))
    eng.store(st, P(c.P, eng.off('p_n')), ('i', 32), BV(0, 32))
    o = eng.wst(st, c.hdr)
    a0 = o.arr
    o.arr = AFn(lambda k: z3.simplify(z3.If(k == 0, BV(MAGIC[0], 8), z3.If(k == 1, BV(MAGIC[1], 8), z3.If(k == 2, BV(MAGIC[2], 8), z3.If(k == 3, BV(MAGIC[3], 8), a0.get(k)))))))
    st.ghost['len'] = c64(0)
    for s, r in eng.call(st, eng.find(BP + r'CheckMagicString'), [P(c.P), P(m)]):
        eng.cover(s)
        r = r if z3.is_bool(r) else r != 0
        eng.oblige(s, r == (c.F.magic(c.ms) == int.from_bytes(MAGIC, 'little')), 'accepts-exactly-its-magic')
        eng.oblige(s, Implies(r, PInv(eng, c, s, c.ms + 4)), 'then-it-reads-the-header')
        eng.oblige(s, Implies(Not(r), And(c.pf(s, 'p_state') == eng.off('PS_M'), c.pf(s, 'p_n') == 0)), 'else-it-is-as-before')


@PROP.job('Reset', 'stream')
def j_preset(eng):
    """after Reset the parser is where CheckMagicString expects it, with a request of its own that has the magic and an empty body"""
    c, st = pmk(eng)
    pcontracts(eng, c)
    C = eng.contract
    C(r'^sofa::pbrpc::BinaryRpcRequest::BinaryRpcRequest\(\)', lambda e, s, a, n: s.ghost.__setitem__('new', a[0]))
    C(r'^operator delete', nop)
    for s, r in eng.call(st, eng.find(BP + r'Reset\(\)'), [P(c.P)]):
        eng.cover(s)
        q = eng.load(s, P(c.P, eng.off('p_req')), ('ptr',))
        new = s.ghost.get('new')
        eng.oblige(s, z3.BoolVal(new is not None and isinstance(q, P) and q.obj is new.obj), 'a-new-request')
        eng.oblige(s, And(c.pf(s, 'p_state') == eng.off('PS_M'), c.pf(s, 'p_n') == 0), 'waits-for-the-magic')



PROP.native('server', 'server.cc', args=['binary', '60'], thorough_args=['binary', '2000'],
            what='real server against a scripted client: requests cut at random places, malformed endings, undecodable and unknown requests', **ALL)
