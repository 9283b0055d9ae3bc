"""M01: a call goes out as one well-formed request message on an open connection to its server, and its response is decoded as answered."""
import re
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.cont import *
from vf.maps import *
from vf.smart import *
from vf.msg import *
import props.F01 as F01

PROP = Prop('M01')
PROP.assumptions = ['protobuf serialises and parses a message through the stream it is given, or reports failure',
                    'WriteBuffer and ReadBuffer keep bytes in order (proved in B01); messages are smaller than 2^31 bytes',
                    'std::map is a function from endpoints to streams; FastLock provides mutual exclusion']
TU = '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/rpc_client_impl.cc>
using namespace sofa::pbrpc;
extern "C" bool vf_flush(void*);
struct VFOut : AbstractCompressedOutputStream {
  bool Flush() { return vf_flush(this); } bool Close() { return true; } bool Next(void**, int*) { return false; } void BackUp(int) {} int64_t ByteCount() const { return 0; } };
struct VFIn : AbstractCompressedInputStream {
  bool ExpectAtEnd() { return true; } bool Next(const void**, int*) { return false; } void BackUp(int) {} bool Skip(int) { return false; } int64_t ByteCount() const { return 0; } };
void vf_mk(void** p) { p[0] = new VFOut; p[1] = new VFIn; }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_run, RpcClientImpl, _is_running) OFF(o_next, RpcClientImpl, _next_request_id) OFF(o_map, RpcClientImpl, _stream_map) OFF(o_lock, RpcClientImpl, _stream_map_lock)
OFF(o_tm, RpcClientImpl, _timeout_manager) OFF(h_meta, RpcMessageHeader, meta_size) OFF(h_data, RpcMessageHeader, data_size) OFF(h_msg, RpcMessageHeader, message_size)
extern "C" const unsigned long SZ = sizeof(RpcClientImpl), SZ_H = sizeof(RpcMessageHeader), SZ_B = sizeof(WriteBuffer), SZ_R = sizeof(ReadBuffer);
extern "C" const unsigned long E_RUN = RPC_ERROR_NOT_IN_RUNNING, E_STREAM = RPC_ERROR_CREATE_STREAM, E_FULL = RPC_ERROR_SEND_BUFFER_FULL,
  E_SER = RPC_ERROR_SERIALIZE_REQUEST, E_TIMEOUT = RPC_ERROR_REQUEST_TIMEOUT, E_PARSE = RPC_ERROR_PARSE_RESPONSE_MESSAGE;
extern "C" const unsigned long C_NONE = CompressTypeNone, T_REQUEST = RpcMeta::REQUEST, MAGIC = SOFA_RPC_MAGIC;
'''
PROP.tu('ci', TU)
CI = r'^sofa::pbrpc::RpcClientImpl::'
CT = r'^sofa::pbrpc::RpcControllerImpl::'
MT = r'^sofa::pbrpc::RpcMeta::'
WB = r'^sofa::pbrpc::WriteBuffer::'


class Ctx:
    pass


def mk(eng):
    c, st = Ctx(), State()
    c.S = eng.new_obj(st, 'client', 'cells', size=eng.off('SZ'))
    c.call = fresh('call', 64)
    st.assume(c.call != 0)
    cp = eng.new_obj(st, 'callptr', 'cells', size=16)
    eng.store(st, P(cp), ('ptr',), c.call)
    c.cp = P(cp)
    smart(eng)
    eng.contract(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(3)))
    c.is_call = lambda e, s, p: e.oblige(s, ptr_term(p) == c.call, 'about-this-call')
    c.add = lambda s, k: eng.setghost(s, k, z3.simplify(s.ghost[k] + 1))
    ep = eng.new_obj(st, 'endpoint', 'cells', size=32)
    c.ep = P(ep)
    eng.contract(CT + r'RemoteEndpoint\(\) const', lambda e, s, a, n: (c.is_call(e, s, a[0]), c.ep)[1])
    return c, st


@PROP.job('CallMethod', 'ci')
def j_call(eng):
    c, st = mk(eng)
    C = eng.contract
    z = c64(0)
    st.ghost.update({'done': z, 'code': BV(0, 32), 'sent': z, 'pushed': z, 'timer': z, 'seqset': z, 'buffer': c64(0)})
    strm = fresh('stream', 64)
    seq, timeout = fresh('seq', 64), fresh('timeout', 64)
    qc, rc = fresh('reqcomp', 32), fresh('respcomp', 32)
    req, resp = fresh('request', 64), fresh('response', 64)
    st.assume(And(req != 0, resp != 0))
    full, run0 = fresh('pend', 64), eng.load(st, P(c.S, eng.off('o_run')), ('i', 8))
    st.assume(z3.ULE(run0, 1))
    maxp = fresh('maxp', 64)

    def find(e, s, a, n):
        e.oblige(s, z3.BoolVal(a[-1] is not None and isinstance(a[-1], P) and a[-1].obj is c.ep.obj), 'a-connection-to-the-server-of-this-call')
        e.store(s, a[0], ('ptr',), strm)
    C(CI + r'FindOrCreateStream', find, trusted=False)
    C(r'^sofa::pbrpc::RpcMessageStream<.*>::pending_buffer_size\(\)', lambda e, s, a, n: full)
    C(r'^sofa::pbrpc::RpcMessageStream<.*>::max_pending_buffer_size\(\)', lambda e, s, a, n: maxp)
    C(CT + r'SetRpcClientStream', nop)
    C(CI + r'GenerateSequenceId', lambda e, s, a, n: seq, trusted=False)

    def setseq(e, s, a, n):
        c.is_call(e, s, a[0])
        e.oblige(s, a[1] == seq, 'gets-a-new-sequence-id')
        c.add(s, 'seqset')
    C(CT + r'SetSequenceId', setseq)
    C(CT + r'SequenceId\(\)', lambda e, s, a, n: z3.If(s.ghost['seqset'] != 0, seq, fresh('oldseq', 64)))
    C(CT + r'Timeout\(\) const', lambda e, s, a, n: (c.is_call(e, s, a[0]), timeout)[1])
    C(CT + r'RequestCompressType', lambda e, s, a, n: qc)
    C(CT + r'ResponseCompressType', lambda e, s, a, n: rc)
    mid = eng.new_obj(st, 'methodid', 'cells', size=32)
    marr, mlen = ASym('method'), fresh('mlen', 64)
    set_str(eng, st, P(mid), marr, mlen)
    C(CT + r'MethodId', lambda e, s, a, n: (c.is_call(e, s, a[0]), P(mid))[1])

    def meta_ok(e, s, g):
        e.oblige(s, And(g['m:type'] == e.off('T_REQUEST'), g['has:type'] == 1, g['has:sequence_id'] == 1, g['m:sequence_id'] == seq, g['has:method'] == 1), 'the-meta-identifies-the-call')
        e.oblige(s, And(g['m:compress_type'] == qc, g['has:compress_type'] == 1, g['m:expected_response_compress_type'] == rc, g['has:expected_response_compress_type'] == 1), 'the-meta-states-the-compression')
        e.oblige(s, If1(timeout > 0, And(g['has:server_timeout'] == 1, g['m:server_timeout'] == timeout), g['has:server_timeout'] == 0), 'the-meta-states-the-deadline')
    Msg(eng, st, {'type': 32, 'sequence_id': 64, 'server_timeout': 64, 'compress_type': 32, 'expected_response_compress_type': 32}, {'method': (marr, mlen)}, meta_ok,
        comp=qc, body=req, hsize=eng.off('SZ_H'), none=eng.off('C_NONE'), magic=eng.off('MAGIC'), offs=(eng.off('h_meta'), eng.off('h_data'), eng.off('h_msg')))

    def setbuf(e, s, a, n):
        c.is_call(e, s, a[0])
        e.setghost(s, 'buffer', ptr_term(e.load(s, a[1], ('ptr',))))
    C(CT + r'SetRequestBuffer', setbuf)

    def push(e, s, a, n):
        c.is_call(e, s, a[0])
        e.oblige(s, And(s.ghost['done'] == 0, s.ghost['sent'] == 0, s.ghost['timer'] == 0), 'registered-before-anything-can-complete-it')
        c.add(s, 'pushed')
    C(CT + r'PushDoneCallback', push)

    def tadd(e, s, a, n):
        e.oblige(s, ptr_term(e.load(s, a[1], ('ptr',))) == c.call, 'about-this-call')
        e.oblige(s, And(s.ghost['pushed'] == 1, s.ghost['sent'] == 0, s.ghost['done'] == 0), 'the-timer-runs-before-the-call-is-sent')
        c.add(s, 'timer')
        r = fresh('added', 1)
        s.ghost['added'] = r
        return r
    C(r'^sofa::pbrpc::RpcTimeoutManager::add\(', tadd, trusted=False)

    def done(e, s, a, n):
        c.is_call(e, s, a[0])
        c.add(s, 'done')
        e.setghost(s, 'code', a[1])
    C(CT + r'Done\(', done, trusted=False)

    def send(e, s, a, n):
        g = s.ghost
        e.oblige(s, And(ptr_term(a[0]) == strm, strm != 0), 'on-the-connection-found')
        e.oblige(s, ptr_term(e.load(s, a[1], ('ptr',))) == c.call, 'about-this-call')
        e.oblige(s, And(g['hdrok'] == 1, g['out'] != 0, g['buffer'] == g['out'], g['pushed'] == 1, g['seqset'] == 1, (g['timer'] == 1) == (timeout > 0)), 'sent-complete')
        c.add(s, 'sent')
    C(r'^sofa::pbrpc::RpcClientStream::call_method', send, trusted=False)
    st.ghost['added'] = z3.BoolVal(True)
    for s, r in eng.call(st, eng.find(CI + r'CallMethod\('), [P(c.S), req, resp, c.cp]):
        eng.cover(s)
        g = s.ghost
        E = lambda k: BV(eng.off(k), 32)
        eng.oblige(s, g['done'] + g['sent'] == 1, 'sent-or-failed-exactly-once')
        over = full > maxp
        code = z3.If(run0 == 0, E('E_RUN'), z3.If(strm == 0, E('E_STREAM'), z3.If(over, E('E_FULL'), z3.If(g['pushed'] == 0, E('E_SER'), E('E_TIMEOUT')))))
        eng.oblige(s, Implies(g['done'] == 1, g['code'] == code), 'failed-with-the-right-error')
        eng.oblige(s, Implies(And(run0 == 1, strm != 0, Not(over), g['hdrok'] == 1, g['added']), g['sent'] == 1), 'sent-when-nothing-fails')
        eng.oblige(s, Implies(And(g['done'] == 1, g['pushed'] == 0, run0 == 1, strm != 0, Not(over)), g['ser'] == 1), 'fails-only-for-a-reason')


@PROP.job('DoneCallback', 'ci')
def j_done(eng):
    c, st = mk(eng)
    C = eng.contract
    z = c64(0)
    st.ghost.update({'parse': z, 'ok': BV(0, 8), 'fail': z, 'erase': z, 'code': BV(0, 32)})
    failed = fresh('failed', 1)
    resp, buf = fresh('response', 64), fresh('buffer', 64)
    rc = fresh('respcomp', 32)
    tid = fresh('tid', 64)
    st.assume(resp != 0)
    st.assume(Implies(Not(failed), buf != 0))          # a successful call has its response buffer (on_received sets it before Done)
    C(CT + r'Failed\(\) const', lambda e, s, a, n: (c.is_call(e, s, a[0]), failed)[1])
    C(CT + r'TimeoutId\(\) const', lambda e, s, a, n: (c.is_call(e, s, a[0]), tid)[1])
    C(CT + r'ResponseCompressType', lambda e, s, a, n: rc)
    bo = eng.new_obj(st, 'bufptr', 'cells', size=16)
    eng.store(st, P(bo), ('ptr',), buf)
    C(CT + r'ResponseBuffer\(\) const', lambda e, s, a, n: (c.is_call(e, s, a[0]), P(bo))[1])

    def era(e, s, a, n):
        e.oblige(s, a[1] == tid, 'stops-the-timer-of-this-call')
        c.add(s, 'erase')
    C(r'^sofa::pbrpc::RpcTimeoutManager::erase', era, trusted=False)

    def getz(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == buf, a[1] == rc, rc != e.off('C_NONE')), 'decompresses-the-response-as-it-was-compressed')
        o = e.new_obj(s, 'zstream', 'cells', size=64)
        e.set_vptr(s, o, 'VFIn')
        s.ghost['zs'] = o
        return P(o)
    C(r'^sofa::pbrpc::get_compressed_input_stream', getz)

    def parse(e, s, a, n):
        zs = s.ghost.get('zs')
        viaz = zs is not None and isinstance(a[1], P) and a[1].obj is zs
        e.oblige(s, ptr_term(a[0]) == resp, 'into-the-response-of-the-caller')
        e.oblige(s, If1(rc == e.off('C_NONE'), z3.BoolVal(not viaz) if viaz else ptr_term(a[1]) == buf, z3.BoolVal(viaz)), 'from-the-response-received')
        c.add(s, 'parse')
        r = fresh('parsed', 1)
        e.setghost(s, 'ok', z3.If(r, BV(1, 8), BV(0, 8)))
        return r
    C(r'^google::protobuf::MessageLite::ParseFromZeroCopyStream', parse)

    def setf(e, s, a, n):
        c.is_call(e, s, a[0])
        c.add(s, 'fail')
        e.setghost(s, 'code', a[1])
    C(CT + r'SetFailed', setf, trusted=False)
    for s, r in eng.call(st, eng.find(CI + r'DoneCallback\('), [P(c.S), resp, c.cp]):
        eng.cover(s)
        g = s.ghost
        eng.oblige(s, g['erase'] == 1, 'stops-its-timer')
        eng.oblige(s, g['parse'] == z3.If(failed, c64(0), c64(1)), 'decoded-once-iff-the-call-succeeded')
        eng.oblige(s, (g['fail'] == 1) == And(g['parse'] == 1, g['ok'] == 0), 'an-undecodable-response-fails-the-call')
        eng.oblige(s, Implies(g['fail'] != 0, g['code'] == eng.off('E_PARSE')), 'with-the-parse-error')


@PROP.job('GenerateSequenceId', 'ci')
def j_seq(eng):
    """no two calls ever get the same sequence id, whatever the interleaving"""
    c, st = mk(eng)
    rd = lambda s: eng.load(s, P(c.S, eng.off('o_next')), ('i', 64))
    lim = 1 << 62
    st.assume(z3.ULT(rd(st), lim))
    st.ghost['before'] = c64(0)
    at = eng.off('o_next')

    def env(e, s, p):
        if isinstance(p, P) and p.obj is c.S and p.off == at:
            o = rd(s)
            n = fresh('next', 64)
            s.assume(And(z3.UGE(n, o), z3.ULT(n, lim)))
            e.wst(s, c.S).cells[at] = (8, n)
            e.setghost(s, 'before', n)
    eng.interfere = env
    start = rd(st)
    for s, r in eng.call(st, eng.find(CI + r'GenerateSequenceId\('), [P(c.S)]):
        eng.cover(s)
        # the id lies in (counter before the atomic step, counter after it]: disjoint intervals for any two calls
        eng.oblige(s, And(z3.UGT(r, s.ghost['before']), z3.ULE(r, rd(s)), z3.UGE(r, start)), 'the-id-is-its-own')


def stream_ctx(eng):
    c, st = mk(eng)
    st.ghost.update({'locked': BV(0, 8), 'connects': c64(0), 'made': c64(0)})
    c.mapp = P(c.S, eng.off('o_map'))
    EPID = fresh('epid', 64)
    c.epid = EPID

    def keyof(e, s, p, d):
        e.oblige(s, z3.BoolVal(isinstance(p, P) and p.obj is c.ep.obj), 'looked-up-by-the-server-address')
        return EPID

    def guard(e, s, p):
        if p.obj is c.S:
            e.oblige(s, s.ghost['locked'] == 1, 'the-connection-table-is-touched-only-under-its-lock')
    c.M = Maps(eng, keyof=keyof, kset=lambda e, s, node, k, d: None, voff=32, guard=guard)
    c.x = fresh('otherep', 64)
    c.M.watch = [c.x]

    def lock(e, s, a, n):
        if isinstance(a[0], P) and a[0].obj is c.S:
            e.oblige(s, And(s.ghost['locked'] == 0, z3.BoolVal(a[0].off == e.off('o_lock'))), 'takes-the-table-lock-once')
            e.setghost(s, 'locked', BV(1, 8))

    def unlock(e, s, a, n):
        if isinstance(a[0], P) and a[0].obj is c.S:
            e.oblige(s, s.ghost['locked'] == 1, 'releases-what-it-took')
            e.setghost(s, 'locked', BV(0, 8))
    eng.contract(r'^(int )?pthread_(spin|mutex)_lock|^sofa::pbrpc::(SpinLock|MutexLock)::lock\(', lock)
    eng.contract(r'^(int )?pthread_(spin|mutex)_unlock|^sofa::pbrpc::(SpinLock|MutexLock)::unlock\(', unlock)
    c.CLOSED = z3.Function('is_closed', z3.BitVecSort(64), z3.BoolSort())
    eng.contract(r'^sofa::pbrpc::RpcByteStream::is_closed\(\) const', lambda e, s, a, n: c.CLOSED(ptr_term(a[0])))
    return c, st


@PROP.job('FindOrCreateStream', 'ci')
def j_find(eng):
    c, st = stream_ctx(eng)
    C = eng.contract
    new = fresh('newstream', 64)
    st.assume(And(new != 0, Not(c.CLOSED(new))))
    m0 = c.M.get(st, c.mapp)
    old, had = z3.Select(m0.val, c.epid), z3.Select(m0.pres, c.epid)
    st.assume(Implies(had, And(old != 0, old != new)))
    C(r'^operator new\(unsigned long\)$', lambda e, s, a, n: new)
    C(r'^operator delete', nop)

    def ctor(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == new, z3.BoolVal(isinstance(a[2], P) and a[2].obj is c.ep.obj)), 'connects-to-the-server-address')
        c.add(s, 'made')
    C(r'^sofa::pbrpc::RpcClientStream::RpcClientStream', ctor)
    C(r'^sofa::pbrpc::(RpcMessageStream<.*>|RpcByteStream|RpcClientStream)::(set_|reset_ticks)', nop)
    C(r'^sofa::pbrpc::ThreadGroupImpl::io_service', lambda e, s, a, n: c.ep)
    C(r'^sofa::pbrpc::ptime_now', lambda e, s, a, n: fresh('now', 64))
    C(r'^boost::date_time::', lambda e, s, a, n: fresh('ticks', 64))

    def conn(e, s, a, n):
        e.oblige(s, ptr_term(a[0]) == new, 'connects-only-the-new-stream')
        c.add(s, 'connects')
    C(r'^sofa::pbrpc::RpcByteStream::async_connect', conn)
    out = eng.new_obj(st, 'result', 'cells', size=16)
    for s, r in eng.call(st, eng.find(CI + r'FindOrCreateStream'), [P(out), P(c.S), c.ep]):
        eng.cover(s)
        m = c.M.flush(s, c.M.get(s, c.mapp))
        res = ptr_term(eng.load(s, P(out), ('ptr',)))
        g = s.ghost
        reuse = And(had, Not(c.CLOSED(old)))
        eng.oblige(s, And(res == z3.If(reuse, old, new), res != 0), 'reuses-an-open-connection-else-opens-one')
        eng.oblige(s, Not(c.CLOSED(res)), 'never-a-closed-connection')
        eng.oblige(s, And(g['made'] == z3.If(reuse, c64(0), c64(1)), g['connects'] == g['made']), 'a-new-connection-is-connected-once')
        eng.oblige(s, And(z3.Select(m.pres, c.epid), z3.Select(m.val, c.epid) == res), 'remembers-the-connection')
        eng.oblige(s, Implies(c.x != c.epid, And(z3.Select(m.pres, c.x) == z3.Select(m0.pres, c.x), z3.Select(m.val, c.x) == z3.Select(m0.val, c.x))), 'other-connections-kept')
        eng.oblige(s, g['locked'] == 0, 'gives-the-lock-back')


@PROP.job('OnClosed', 'ci')
def j_closed(eng):
    c, st = stream_ctx(eng)
    m0 = c.M.get(st, c.mapp)
    run = eng.load(st, P(c.S, eng.off('o_run')), ('i', 8))
    old, had = z3.Select(m0.val, c.epid), z3.Select(m0.pres, c.epid)
    st.assume(Implies(had, old != 0))
    sp = eng.new_obj(st, 'closedptr', 'cells', size=16)
    strm = fresh('closed', 64)
    st.assume(And(strm != 0, c.CLOSED(strm)))
    eng.store(st, P(sp), ('ptr',), strm)
    eng.contract(r'^sofa::pbrpc::RpcByteStream::remote_endpoint\(\) const', lambda e, s, a, n: c.ep)
    for s, r in eng.call(st, eng.find(CI + r'OnClosed'), [P(c.S), P(sp)]):
        eng.cover(s)
        m = c.M.flush(s, c.M.get(s, c.mapp))
        eng.oblige(s, Implies(And(had, Not(c.CLOSED(old))), And(z3.Select(m.pres, c.epid), z3.Select(m.val, c.epid) == old)), 'an-open-connection-is-kept')
        eng.oblige(s, Implies(And(run != 0, z3.ULE(run, 1), had, c.CLOSED(old)), Not(z3.Select(m.pres, c.epid))), 'a-closed-connection-is-forgotten')
        eng.oblige(s, Implies(c.x != c.epid, z3.Select(m.pres, c.x) == z3.Select(m0.pres, c.x)), 'other-connections-kept')
        eng.oblige(s, s.ghost['locked'] == 0, 'gives-the-lock-back')


PROP.native('client', 'client.cc', args=['outgoing', '10'], thorough_args=['outgoing', '300'],
            what='real client: the request messages on the wire parse back to what was called', **F01.ALL)
