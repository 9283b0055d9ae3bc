"""D01: every request a server receives is dispatched to the method it names at most once, or answered with the error that applies."""
import re
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.smart import *
from vf.msg import *
from props.T01 import times
import props.F01 as F01

PROP = Prop('D01')
PROP.assumptions = ['the service runs its done closure at most once',
                    'protobuf parses and serialises a message through the stream it is given, or reports failure',
                    'a server timeout is less than 2^53 milliseconds (beyond that the conversion to microseconds overflows)',
                    'weak pointers give the stream while it exists, and null after; it may go at any moment']
TU = '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/binary_rpc_request.cc>
#include <sofa/pbrpc/rpc_request.cc>
#include <sofa/pbrpc/rpc_controller.cc>
using namespace sofa::pbrpc;
using namespace google::protobuf;
extern "C" void vf_del(const void*, const void*); extern "C" Message* vf_new(const void*); extern "C" const Message* vf_proto(const void*, const void*, int);
extern "C" void vf_call(void*, const void*, void*, const void*, const void*, void*); extern "C" bool vf_flush(void*);
struct VFMsg : Message { long which; VFMsg() {} ~VFMsg() { vf_del(this, this); } Message* New(Arena*) const { return vf_new(this); } Metadata GetMetadata() const { return Metadata(); } int GetCachedSize() const { return 0; } };
struct VFSvc : Service { const ServiceDescriptor* GetDescriptor() { return NULL; } ~VFSvc() {}
  void CallMethod(const MethodDescriptor* m, google::protobuf::RpcController* c, const Message* q, Message* r, Closure* d) { vf_call(this, m, c, q, r, d); }
  const Message& GetRequestPrototype(const MethodDescriptor* m) const { return *vf_proto(this, m, 0); }
  const Message& GetResponsePrototype(const MethodDescriptor* m) const { return *vf_proto(this, m, 1); } };
struct VFOut : AbstractCompressedOutputStream {
  bool Flush() { return vf_flush(this); } bool Close() { return true; } bool Next(void**, int*) { return false; } void BackUp(int) {} int64_t ByteCount() const { return 0; } };
struct VFIn : AbstractCompressedInputStream {
  bool ExpectAtEnd() { return true; } bool Next(const void**, int*) { return false; } void BackUp(int) {} bool Skip(int) { return false; } int64_t ByteCount() const { return 0; } };
void vf_mk(void** p) { p[0] = new VFMsg; p[1] = new VFSvc; p[2] = new VFOut; p[3] = new VFIn; p[4] = new BinaryRpcRequest; p[5] = new sofa::pbrpc::RpcController; }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_impl, sofa::pbrpc::RpcController, _impl)
OFF(i_seq, RpcControllerImpl, _sequence_id) OFF(i_method, RpcControllerImpl, _method_id) OFF(i_code, RpcControllerImpl, _error_code) OFF(i_reason, RpcControllerImpl, _reason)
OFF(i_stream, RpcControllerImpl, _server_stream) OFF(i_timeout, RpcControllerImpl, _server_timeout) OFF(i_recv, RpcControllerImpl, _request_received_time)
OFF(i_uresp, RpcControllerImpl, _user_options.response_compress_type) OFF(i_aresp, RpcControllerImpl, _auto_options.response_compress_type)
OFF(i_start, RpcControllerImpl, _start_process_time) OFF(i_finish, RpcControllerImpl, _finish_process_time) OFF(i_remote, RpcControllerImpl, _remote_endpoint) OFF(i_local, RpcControllerImpl, _local_endpoint)
OFF(r_recv, BinaryRpcRequest, _received_time) OFF(r_meta, BinaryRpcRequest, _req_meta) OFF(r_body, BinaryRpcRequest, _req_body) OFF(r_remote, BinaryRpcRequest, _remote_endpoint) OFF(r_local, BinaryRpcRequest, _local_endpoint)
OFF(b_svc, MethodBoard, _service_board) OFF(b_desc, MethodBoard, _desc) OFF(s_svc, ServiceBoard, _svc) OFF(s_desc, ServiceBoard, _svc_desc)
OFF(h_meta, RpcMessageHeader, meta_size) OFF(h_data, RpcMessageHeader, data_size) OFF(h_msg, RpcMessageHeader, message_size)
extern "C" const unsigned long SZ_C = sizeof(sofa::pbrpc::RpcController), SZ_I = sizeof(RpcControllerImpl), SZ_R = sizeof(BinaryRpcRequest), SZ_B = sizeof(MethodBoard), SZ_S = sizeof(ServiceBoard), SZ_H = sizeof(RpcMessageHeader);
extern "C" const unsigned long E_NAME = RPC_ERROR_PARSE_METHOD_NAME, E_FOUND = RPC_ERROR_FOUND_METHOD, E_PARSE = RPC_ERROR_PARSE_REQUEST_MESSAGE;
extern "C" const unsigned long C_NONE = CompressTypeNone, C_AUTO = (unsigned)CompressTypeAuto, T_RESPONSE = RpcMeta::RESPONSE, MAGIC = SOFA_RPC_MAGIC;
'''
PROP.tu('req', TU)
RR = r'^sofa::pbrpc::RpcRequest::'
BR = r'^sofa::pbrpc::BinaryRpcRequest::'
MT = r'^sofa::pbrpc::RpcMeta::'
ST = r'^sofa::pbrpc::RpcServerStream::'


class Ctx:
    pass


def base(eng, cls='BinaryRpcRequest'):
    c, st = Ctx(), State()
    C = eng.contract
    smart(eng)
    times(eng)
    c.add = lambda s, k: eng.setghost(s, k, z3.simplify(s.ghost[k] + 1))
    C(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(3)))
    C(r'^sofa::pbrpc::RpcErrorCodeToString', lambda e, s, a, n: P(e.new_obj(s, 'errname', 'bytes', size=c64(8), arr=AStore(ASym('n'), c64(7), BV(0, 8)))))
    C(r'^boost::date_time::time_duration<.*>::total_microseconds\(\) const', lambda e, s, a, n: e.load(s, a[0], ('i', 64)))
    c.R = eng.new_obj(st, 'rpcrequest', 'cells', size=eng.off('SZ_R'))
    eng.set_vptr(st, c.R, 'sofa::pbrpc::' + cls)
    c.B = eng.new_obj(st, 'board', 'cells', size=eng.off('SZ_B'))
    c.SB = eng.new_obj(st, 'svcboard', 'cells', size=eng.off('SZ_S'))
    C(r'^(sofa::pbrpc|boost|std)::enable_shared_from_this<.*>::shared_from_this\(\)', lambda e, s, a, n: e.store(s, a[0], ('ptr',), P(a[1].obj)))
    c.svc = eng.new_obj(st, 'service', 'cells', size=64)
    eng.set_vptr(st, c.svc, 'VFSvc')
    c.desc = fresh('method', 64)
    st.assume(c.desc != 0)
    eng.store(st, P(c.B, eng.off('b_svc')), ('ptr',), P(c.SB))
    eng.store(st, P(c.B, eng.off('b_desc')), ('ptr',), c.desc)
    eng.store(st, P(c.SB, eng.off('s_svc')), ('ptr',), P(c.svc))
    for k in ('del_q', 'del_r', 'del_c'):
        st.ghost[k] = c64(0)
    c.q = eng.new_obj(st, 'request', 'cells', size=64)
    c.r = eng.new_obj(st, 'response', 'cells', size=64)
    for o in (c.q, c.r):
        eng.set_vptr(st, o, 'VFMsg')

    def dele(e, s, a, n):
        k = {c.q.id: 'del_q', c.r.id: 'del_r'}.get(a[0].obj.id if isinstance(a[0], P) else None)
        e.oblige(s, z3.BoolVal(k is not None), 'deletes-only-its-own-messages')
        c.add(s, k)
    C(r'^vf_del', dele)
    C(r'^google::protobuf::Message(Lite)?::~Message', nop)
    C(r'^operator delete', nop)
    C(r'^google::protobuf::Closure::~Closure', nop)
    c.is_r = lambda p: isinstance(p, P) and p.obj is c.R
    c.isobj = lambda p, o, off=0: isinstance(p, P) and p.obj is o and p.off == off

    def dcntl(e, s, a, n):
        e.oblige(s, z3.BoolVal(c.isobj(a[0], c.cntl)), 'deletes-only-its-own-controller')
        c.add(s, 'del_c')
    C(r'^sofa::pbrpc::RpcController::~RpcController', dcntl)
    c.dels = lambda s: And(s.ghost['del_q'] == s.ghost['del_r'], s.ghost['del_r'] == s.ghost['del_c'])
    # the clock never runs backwards between two readings of it
    return c, st


def withcntl(eng, st, c):
    """a controller for the request, as ProcessRequest made it"""
    c.cntl = eng.new_obj(st, 'controller', 'cells', size=eng.off('SZ_C'))
    eng.set_vptr(st, c.cntl, 'sofa::pbrpc::RpcController')
    c.I = eng.new_obj(st, 'cntlimpl', 'cells', size=eng.off('SZ_I'))
    eng.store(st, P(c.cntl, eng.off('o_impl')), ('ptr',), P(c.I))
    c.f = lambda s, k, w=64: eng.load(s, P(c.I, eng.off(k)), ('i', w))
    c.stream = fresh('stream', 64)
    st.assume(c.stream != 0)
    eng.store(st, P(c.I, eng.off('i_stream')), ('ptr',), c.stream)
    lim = 1 << 53
    st.assume(And(c.f(st, 'i_timeout') >= 0, c.f(st, 'i_timeout') < lim))
    st.assume(And(c.f(st, 'i_recv') > 0, c.f(st, 'i_recv') < (1 << 61)))
    st.assume(And(c.f(st, 'i_start') > 0, c.f(st, 'i_start') < (1 << 61)))
    st.ghost['alive'] = BV(0, 8)
    st.ghost['last'] = BV(0, 8)
    st.ghost['locks'] = c64(0)
    ld = lambda e, s, p: e.load(s, p, ('ptr',))

    def lock(e, s, a, n):
        # once it is gone it stays gone; while somebody holds it, it stays
        e.oblige(s, ptr_term(ld(e, s, a[1])) == c.stream, 'the-stream-of-this-request')
        s2 = s.copy()
        e.store(s, a[0], ('ptr',), c.stream)
        e.setghost(s, 'alive', BV(1, 8))
        c.add(s, 'locks')
        e.store(s2, a[0], ('ptr',), c64(0))
        e.setghost(s2, 'alive', BV(2, 8))
        return [(s2, None), (s, None)]
    eng.contract(r'^(sofa::pbrpc|boost|std)::weak_ptr<.*>::lock\(\) const', lock)
    return c


@PROP.job('CallMethod', 'req')
def j_call(eng):
    """the service runs once with what was parsed, unless nobody waits for the answer any more; the closure it gets finishes this request"""
    c, st = base(eng)
    withcntl(eng, st, c)
    C = eng.contract
    z = c64(0)
    st.ghost.update({'called': z, 'pend': z, 'done': z})
    t0 = c.f(st, 'i_recv')

    def inc(e, s, a, n):
        e.oblige(s, ptr_term(a[0]) == c.stream, 'of-its-stream')
        e.oblige(s, s.ghost['called'] == 0, 'counted-before-it-runs')
        c.add(s, 'pend')
    C(ST + r'increase_pending_process_count', inc)

    def fin(e, s, a, n):
        e.oblige(s, z3.BoolVal(c.is_r(a[0]) and c.isobj(a[1], c.B) and c.isobj(a[2], c.cntl) and c.isobj(a[3], c.q) and c.isobj(a[4], c.r)), 'finishes-this-request')
        c.add(s, 'done')
    C(RR + r'OnCallMethodDone', fin, trusted=False)

    def call(e, s, a, n):
        e.oblige(s, z3.BoolVal(c.isobj(a[0], c.svc) and c.isobj(a[2], c.cntl) and c.isobj(a[3], c.q) and c.isobj(a[4], c.r)), 'the-service-gets-this-request')
        e.oblige(s, ptr_term(a[1]) == c.desc, 'the-method-named')
        e.oblige(s, And(s.ghost['pend'] == 1, s.ghost['del_q'] + s.ghost['del_r'] + s.ghost['del_c'] == 0), 'nothing-freed-yet')
        c.add(s, 'called')
        s.ghost['started'] = c.f(s, 'i_start')
        run = e.load(s, a[5], ('ptr',))
        e.oblige(s, z3.BoolVal(isinstance(a[5], P)), 'a-closure')
        run = e.load(s, e.padd(s, run, 16), ('ptr',)) if isinstance(run, P) else run
        if not isinstance(run, FnP):
            raise Unsupported('closure %r' % (run,))
        return [(s1, None) for s1, r in e.call(s, run.name, [a[5]])]
    C(r'^vf_call', call)
    for s, r in eng.call(st, eng.find(RR + r'CallMethod\('), [P(c.R), P(c.B), P(c.cntl), P(c.q), P(c.r)]):
        eng.cover(s)
        g = s.ghost
        to = c.f(st, 'i_timeout')
        now = g['clock'][0] if g.get('clock') else c64(0)
        late = And(to > 0, now - t0 > to * 1000)
        gone = g['alive'] != 1
        eng.oblige(s, g['called'] == g['done'], 'its-closure-finishes-it-once')
        eng.oblige(s, Implies(gone, g['called'] == 0), 'not-run-when-the-connection-is-gone')
        eng.oblige(s, Implies(Not(gone), g['called'] == z3.If(late, c64(0), c64(1))), 'run-once-unless-too-late')
        eng.oblige(s, And(c.dels(s), g['del_q'] == 1 - g['called']), 'dropped-means-freed-once')
        eng.oblige(s, g['pend'] == g['called'], 'pending-iff-running')
        if 'started' in g:
            eng.oblige(s, Implies(g['called'] == 1, g['started'] == now), 'the-start-time-is-recorded')


@PROP.job('OnCallMethodDone', 'req')
def j_fin(eng):
    """a finished call is answered once with its outcome while its connection lives and its deadline has not passed; its memory is freed once, after that"""
    c, st = base(eng)
    withcntl(eng, st, c)
    C = eng.contract
    z = c64(0)
    st.ghost.update({'pend': z, 'stat': z, 'ok': z, 'fail': z})
    t0, code = c.f(st, 'i_recv'), c.f(st, 'i_code', 32)

    def dec(e, s, a, n):
        e.oblige(s, ptr_term(a[0]) == c.stream, 'of-its-stream')
        c.add(s, 'pend')
    C(ST + r'decrease_pending_process_count', dec)

    def stat(e, s, a, n):
        e.oblige(s, z3.BoolVal(c.isobj(a[0], c.B)), 'counted-for-its-method')
        e.oblige(s, a[1] == (code == 0), 'counted-as-it-ended')
        if s.ghost.get('clock'):
            e.oblige(s, a[2] == s.ghost['clock'][-1] - c.f(st, 'i_start'), 'the-time-it-took')
        c.add(s, 'stat')
    C(r'^sofa::pbrpc::MethodBoard::ReportProcessEnd', stat, trusted=False)
    whole = lambda s: s.ghost['del_q'] + s.ghost['del_r'] + s.ghost['del_c'] == 0

    def sok(e, s, a, n):
        if len(a) >= 3 and isinstance(a[2], P) and a[2].obj is c.r:
            e.oblige(s, ptr_term(e.load(s, a[1], ('ptr',))) == ptr_term(P(c.I)), 'the-outcome-of-this-call')
        else:
            e.oblige(s, z3.BoolVal(False), 'the-response-the-service-filled')
        e.oblige(s, And(whole(s), z3.BoolVal(c.is_r(a[0]))), 'sent-before-it-is-freed')
        c.add(s, 'ok')
    C(RR + r'SendSucceedResponse', sok, trusted=False)

    def sfail(e, s, a, n):
        e.oblige(s, And(ptr_term(e.load(s, a[1], ('ptr',))) == c.stream, a[2] == code), 'the-outcome-of-this-call')
        rs = get_str(e, s, a[3])
        r0 = get_str(e, st, P(c.I, e.off('i_reason')))
        k = fresh('k', 64)
        e.oblige(s, And(rs.len == r0.len, Implies(z3.ULT(k, rs.len), str_arr(e, s, rs).get(k) == str_arr(e, st, r0).get(k))), 'the-reason-of-this-call')
        e.oblige(s, And(whole(s), z3.BoolVal(c.is_r(a[0]))), 'sent-before-it-is-freed')
        c.add(s, 'fail')
    C(RR + r'SendFailedResponse', sfail, trusted=False)
    get_str(eng, st, P(c.I, eng.off('i_reason')))
    for s, r in eng.call(st, eng.find(RR + r'OnCallMethodDone'), [P(c.R), P(c.B), P(c.cntl), P(c.q), P(c.r)]):
        eng.cover(s)
        g = s.ghost
        to = c.f(st, 'i_timeout')
        now = g['clock'][0]
        late = And(to > 0, now - t0 > to * 1000)
        alive = g['alive'] == 1
        eng.oblige(s, z3.BoolVal(len(g['clock']) == 1) if len(g['clock']) != 1 else c.f(s, 'i_finish') == now, 'the-finish-time-is-recorded')
        eng.oblige(s, g['stat'] == 1, 'counted-once')
        eng.oblige(s, g['ok'] + g['fail'] == z3.If(And(alive, Not(late)), c64(1), c64(0)), 'answered-once-while-somebody-waits')
        eng.oblige(s, And(Implies(g['ok'] == 1, code == 0), Implies(g['fail'] == 1, code != 0)), 'a-failure-is-answered-as-a-failure')
        eng.oblige(s, Implies(alive, g['pend'] == 1), 'no-longer-pending')
        eng.oblige(s, And(c.dels(s), g['del_q'] == 1), 'freed-once')


def sendctx(eng):
    c, st = base(eng)
    withcntl(eng, st, c)
    C = eng.contract
    st.ghost.update({'sent': c64(0), 'asm': c64(0)})
    c.buf = fresh('responsebuffer', 64)
    C(MT + r'sequence_id\(\) const', lambda e, s, a, n: fresh('seq', 64))

    def send(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == c.stream, ptr_term(e.load(s, a[1], ('ptr',))) == c.buf, c.buf != 0), 'sends-what-was-assembled-to-its-stream')
        c.add(s, 'sent')
    C(ST + r'send_response', send, trusted=False)
    c.wp = eng.new_obj(st, 'weakstream', 'cells', size=16)
    eng.store(st, P(c.wp), ('ptr',), c.stream)
    return c, st


def sendpost(eng, c, s, gate=True):
    g = s.ghost
    eng.oblige(s, Implies(And(g['alive'] == 1, c.buf != 0), g['sent'] == 1), 'sent-when-it-can-be')
    eng.oblige(s, z3.ULE(g['sent'], 1), 'at-most-one-answer')


@PROP.job('SendSucceedResponse', 'req')
def j_sok(eng):
    c, st = sendctx(eng)
    ip = eng.new_obj(st, 'implptr', 'cells', size=16)
    eng.store(st, P(ip), ('ptr',), P(c.I))

    def asm(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(c.is_r(a[1]) and c.isobj(a[3], c.r)), ptr_term(e.load(s, a[2], ('ptr',))) == ptr_term(P(c.I))), 'assembles-the-response')
        e.store(s, a[0], ('ptr',), c.buf)
        c.add(s, 'asm')
    eng.contract(BR + r'AssembleSucceedResponse', asm, trusted=False)
    for s, r in eng.call(st, eng.find(RR + r'SendSucceedResponse\(sofa::pbrpc::shared_ptr'), [P(c.R), P(ip), P(c.r)]):
        eng.cover(s)
        sendpost(eng, c, s)


@PROP.job('SendFailedResponse', 'req')
def j_sfail(eng):
    c, st = sendctx(eng)
    code = fresh('code', 32)
    rs = eng.new_obj(st, 'reason', 'cells', size=32)
    set_str(eng, st, P(rs), ASym('reason'), fresh('rlen', 64))
    v0 = get_str(eng, st, P(rs))

    def asm(e, s, a, n):
        v = get_str(e, s, a[3])
        k = fresh('k', 64)
        e.oblige(s, And(z3.BoolVal(c.is_r(a[1])), a[2] == code, v.len == v0.len, Implies(z3.ULT(k, v.len), str_arr(e, s, v).get(k) == str_arr(e, st, v0).get(k))), 'assembles-the-failure')
        e.store(s, a[0], ('ptr',), c.buf)
        c.add(s, 'asm')
    eng.contract(BR + r'AssembleFailedResponse', asm, trusted=False)
    for s, r in eng.call(st, eng.find(RR + r'SendFailedResponse'), [P(c.R), P(c.wp), code, P(rs)]):
        eng.cover(s)
        sendpost(eng, c, s)


def assemble(eng, ok):
    c, st = base(eng)
    withcntl(eng, st, c)
    rseq, rmeth = fresh('requestseq', 64), None
    seq = c.f(st, 'i_seq') if ok else rseq
    code = fresh('code', 32)
    if ok:
        st.assume(eng.load(st, P(c.I, eng.off('i_uresp')), ('i', 32)) != eng.off('C_AUTO'))
    rc = eng.load(st, P(c.I, eng.off('i_uresp')), ('i', 32)) if ok else None
    rarr, rlen = ASym('reason'), fresh('rlen', 64)

    def meta_ok(e, s, g):
        e.oblige(s, And(g['m:type'] == e.off('T_RESPONSE'), g['has:type'] == 1, g['has:sequence_id'] == 1, g['m:sequence_id'] == seq), 'the-meta-answers-this-request')
        if ok:
            e.oblige(s, Implies(g['has:failed'] == 1, g['m:failed'] == 0), 'the-meta-says-success')
            e.oblige(s, If1(rc == e.off('C_NONE'), Implies(g['has:compress_type'] == 1, g['m:compress_type'] == rc), And(g['has:compress_type'] == 1, g['m:compress_type'] == rc)), 'the-meta-states-the-compression')
        else:
            e.oblige(s, And(g['has:failed'] == 1, g['m:failed'] == 1, g['has:error_code'] == 1, g['m:error_code'] == code, g['has:reason'] == 1), 'the-meta-says-why-it-failed')
    Msg(eng, st, {'type': 32, 'sequence_id': 64, 'failed': 8, 'error_code': 32, 'compress_type': 32}, {'reason': (rarr, rlen)}, meta_ok,
        comp=rc, body=ptr_term(P(c.r)) if ok else None, hsize=eng.off('SZ_H'), none=eng.off('C_NONE'), magic=eng.off('MAGIC'), offs=(eng.off('h_meta'), eng.off('h_data'), eng.off('h_msg')))

    def rdseq(e, s, a, n):
        if c.isobj(a[0], c.R, e.off('r_meta')):
            return rseq
        return s.ghost['m:sequence_id']
    eng.contract(MT + r'sequence_id\(\) const', rdseq)
    out = eng.new_obj(st, 'result', 'cells', size=16)
    err = eng.new_obj(st, 'err', 'cells', size=32)
    set_str(eng, st, P(err), ASym('err'), c64(0))
    if ok:
        ip = eng.new_obj(st, 'implptr', 'cells', size=16)
        eng.store(st, P(ip), ('ptr',), P(c.I))
        args = [P(out), P(c.R), P(ip), P(c.r), P(err)]
    else:
        rs = eng.new_obj(st, 'reason', 'cells', size=32)
        st.assume(z3.ULT(rlen, 1 << 40))
        set_str(eng, st, P(rs), rarr, rlen)
        args = [P(out), P(c.R), code, P(rs), P(err)]
    for s, r in eng.call(st, eng.find(BR + ('AssembleSucceedResponse' if ok else 'AssembleFailedResponse')), args):
        eng.cover(s)
        res = ptr_term(eng.load(s, P(out), ('ptr',)))
        g = s.ghost
        eng.oblige(s, If1(g['ser'] == 1, res == 0, And(res == g['out'], res != 0, g['hdrok'] == 1)), 'a-complete-message-or-none')


@PROP.job('AssembleSucceedResponse', 'req')
def j_aok(eng):
    assemble(eng, True)


@PROP.job('AssembleFailedResponse', 'req')
def j_afail(eng):
    assemble(eng, False)


@PROP.job('ParseMethodFullName', 'req')
def j_name(eng):
    c, st = Ctx(), State()
    o = [eng.new_obj(st, n, 'cells', size=32) for n in ('full', 'service', 'method')]
    arr, ln = ASym('full'), fresh('len', 64)
    st.assume(z3.ULT(ln, 1 << 40))
    set_str(eng, st, P(o[0]), arr, ln)
    for p in o[1:]:
        set_str(eng, st, P(p), ASym('old'), c64(0))
    dot = BV(ord('.'), 8)
    for s, r in eng.call(st, eng.find(RR + r'ParseMethodFullName'), [P(x) for x in o]):
        eng.cover(s)
        sv, mv = get_str(eng, s, P(o[1])), get_str(eng, s, P(o[2]))
        sa, ma = str_arr(eng, s, sv), str_arr(eng, s, mv)
        ok = r if z3.is_bool(r) else r != 0
        eng.oblige(s, ForAll(lambda k: Implies(Not(ok), Implies(z3.ULT(k, ln), arr.get(k) != dot))), 'only-a-name-without-a-dot-is-refused')
        eng.oblige(s, Implies(ok, And(sv.len + 1 + mv.len == ln, z3.ULT(sv.len, ln), arr.get(sv.len) == dot)), 'split-at-a-dot')
        eng.oblige(s, ForAll(lambda k: Implies(And(ok, z3.ULT(k, sv.len)), sa.get(k) == arr.get(k))), 'the-service-is-what-precedes')
        eng.oblige(s, ForAll(lambda k: Implies(And(ok, z3.ULT(k, mv.len)), And(ma.get(k) == arr.get(sv.len + 1 + k), ma.get(k) != dot)), [lambda k: sv.len + 1 + k]), 'the-method-is-what-follows-the-last-dot')


@PROP.job('FindMethodBoard', 'req')
def j_find(eng):
    c, st = base(eng)
    C = eng.contract
    sn, mn = (eng.new_obj(st, n, 'cells', size=32) for n in ('sname', 'mname'))
    for p in (sn, mn):
        set_str(eng, st, P(p), ASym(p.name), fresh('len', 64))
    pool = fresh('pool', 64)
    st.assume(pool != 0)
    pp = eng.new_obj(st, 'poolptr', 'cells', size=16)
    eng.store(st, P(pp), ('ptr',), pool)
    has, hasm = fresh('hasservice', 1), fresh('hasmethod', 1)
    sd, idx = fresh('svcdesc', 64), fresh('index', 32)
    eng.store(st, P(c.SB, eng.off('s_desc')), ('ptr',), sd)
    st.assume(sd != 0)

    def find(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == pool, z3.BoolVal(c.isobj(a[1], sn))), 'looks-the-service-up-by-its-name')
        s2 = s.copy()
        s2.assume(Not(has))
        s.assume(has)
        return [(s2, c64(0)), (s, P(c.SB))]
    C(r'^sofa::pbrpc::ServicePool::FindService', find, trusted=False)

    def meth(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == sd, z3.BoolVal(c.isobj(a[1], mn))), 'looks-the-method-up-by-its-name')
        return z3.If(hasm, c.desc, c64(0))
    C(r'^google::protobuf::ServiceDescriptor::FindMethodByName', meth)
    C(r'^google::protobuf::MethodDescriptor::index', lambda e, s, a, n: (e.oblige(s, ptr_term(a[0]) == c.desc, 'of-that-method'), idx)[1])
    C(r'^sofa::pbrpc::ServiceBoard::Method\(', lambda e, s, a, n: (e.oblige(s, And(z3.BoolVal(c.isobj(a[0], c.SB)), a[1] == idx), 'of-that-service-and-method'), P(c.B))[1], trusted=False)
    for s, r in eng.call(st, eng.find(RR + r'FindMethodBoard'), [P(pp), P(sn), P(mn)]):
        eng.cover(s)
        eng.oblige(s, (ptr_term(r) != 0) == And(has, hasm), 'found-iff-it-exists')
        eng.oblige(s, Implies(ptr_term(r) != 0, ptr_term(r) == ptr_term(P(c.B))), 'and-it-is-that-one')


@PROP.job('ProcessRequest', 'req')
def j_proc(eng):
    """a request is either handed to its method with everything its meta said, or answered once with the error that applies"""
    c, st = base(eng)
    C = eng.contract
    z = c64(0)
    st.ghost.update({'call': z, 'fail': z, 'code': BV(0, 32), 'newq': z, 'newr': z, 'parsed': BV(0, 8), 'split': BV(0, 8), 'found': BV(0, 8)})
    stream, body, pool = fresh('stream', 64), fresh('body', 64), fresh('pool', 64)
    st.assume(And(stream != 0, body != 0, pool != 0))
    wp, pp = (eng.new_obj(st, n, 'cells', size=16) for n in ('streamptr', 'poolptr'))
    eng.store(st, P(wp), ('ptr',), stream)
    eng.store(st, P(pp), ('ptr',), pool)
    eng.store(st, P(c.R, eng.off('r_body')), ('ptr',), body)
    recv = eng.load(st, P(c.R, eng.off('r_recv')), ('i', 64))
    m = {k: fresh(k, w) for k, w in (('sequence_id', 64), ('compress_type', 32), ('server_timeout', 64), ('expected_response_compress_type', 32))}
    h = {k: fresh('has_' + k, 1) for k in m}
    # a field that is not set reads as its default
    for k in m:
        st.assume(Implies(Not(h[k]), m[k] == 0))
        C(MT + r'(_internal_)?%s\(\) const' % k, lambda e, s, a, n, k=k: m[k])
        C(MT + r'(_internal_)?has_%s\(\) const' % k, lambda e, s, a, n, k=k: h[k])
    mo = eng.new_obj(st, 'metamethod', 'cells', size=32)
    marr, mlen = ASym('method'), fresh('mlen', 64)
    st.assume(z3.ULT(mlen, 1 << 40))
    set_str(eng, st, P(mo), marr, mlen)
    C(MT + r'(_internal_)?method(\[abi:cxx11\])?\(\) const', lambda e, s, a, n: P(mo))
    same = lambda e, s, v: (lambda k: And(v.len == mlen, Implies(z3.ULT(k, mlen), str_arr(e, s, v).get(k) == marr.get(k))))(fresh('k', 64))

    def parse(e, s, a, n):
        e.oblige(s, same(e, s, get_str(e, s, a[0])), 'the-name-in-the-request')
        s2 = s.copy()
        for i, nm in ((1, 'sname'), (2, 'mname')):
            set_str(e, s, a[i], ASym(nm), fresh('l' + nm, 64))
        s.ghost['names'] = (a[1], a[2], get_str(e, s, a[1]), get_str(e, s, a[2]))
        e.setghost(s, 'split', BV(1, 8))
        return [(s2, z3.BoolVal(False)), (s, z3.BoolVal(True))]
    C(RR + r'ParseMethodFullName', parse, trusted=False)

    def find(e, s, a, n):
        nm = s.ghost.get('names')
        okn = nm is not None and get_str(e, s, a[1]).obj is nm[2].obj and get_str(e, s, a[2]).obj is nm[3].obj
        e.oblige(s, And(z3.BoolVal(okn), ptr_term(e.load(s, a[0], ('ptr',))) == pool), 'by-the-names-in-the-request')
        s2 = s.copy()
        e.setghost(s, 'found', BV(1, 8))
        return [(s2, c64(0)), (s, P(c.B))]
    C(RR + r'FindMethodBoard', find, trusted=False)
    pq, pr = (eng.new_obj(st, n, 'cells', size=64) for n in ('reqproto', 'respproto'))
    for o in (pq, pr):
        eng.set_vptr(st, o, 'VFMsg')

    def proto(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(c.isobj(a[0], c.svc)), ptr_term(a[1]) == c.desc), 'the-types-of-the-method')
        return [P(pq), P(pr)][int(str(z3.simplify(a[2])))]
    C(r'^vf_proto', proto)

    def new(e, s, a, n):
        q = c.isobj(a[0], pq)
        e.oblige(s, z3.BoolVal(q or c.isobj(a[0], pr)), 'from-a-prototype')
        c.add(s, 'newq' if q else 'newr')
        e.oblige(s, s.ghost['newq' if q else 'newr'] == 1, 'made-once')
        return P(c.q if q else c.r)
    C(r'^vf_new', new)
    comp = z3.If(h['compress_type'], m['compress_type'], BV(eng.off('C_NONE'), 32))

    def getz(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == body, a[1] == comp, comp != e.off('C_NONE')), 'decompresses-the-body-as-the-meta-says')
        o = e.new_obj(s, 'zstream', 'cells', size=64)
        e.set_vptr(s, o, 'VFIn')
        s.ghost['zs'] = o
        return P(o)
    C(r'^sofa::pbrpc::get_compressed_input_stream', getz)

    def rd(e, s, a, n):
        zs = s.ghost.get('zs')
        viaz = zs is not None and isinstance(a[1], P) and a[1].obj is zs
        e.oblige(s, z3.BoolVal(c.isobj(a[0], c.q)), 'into-the-request')
        e.oblige(s, If1(comp == e.off('C_NONE'), z3.BoolVal(False) if viaz else ptr_term(a[1]) == body, z3.BoolVal(viaz)), 'from-the-body-received')
        s2 = s.copy()
        e.setghost(s, 'parsed', BV(1, 8))
        return [(s2, z3.BoolVal(False)), (s, z3.BoolVal(True))]
    C(r'^google::protobuf::MessageLite::ParseFromZeroCopyStream', rd)

    def fail(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(c.is_r(a[0])), ptr_term(e.load(s, a[1], ('ptr',))) == stream), 'answers-this-request')
        e.setghost(s, 'code', a[2])
        c.add(s, 'fail')
    C(RR + r'SendFailedResponse', fail, trusted=False)

    def mkcntl(e, s, a, n):
        c.cntl = a[0].obj
        c.I = e.new_obj(s, 'impl', 'cells', size=e.off('SZ_I'))
        e.store(s, e.padd(s, a[0], e.off('o_impl')), ('ptr',), P(c.I))
        for k, w in (('i_timeout', 64), ('i_code', 32)):
            e.store(s, P(c.I, e.off(k)), ('i', w), BV(0, w))
        for k in ('i_uresp', 'i_aresp'):
            e.store(s, P(c.I, e.off(k)), ('i', 32), BV(e.off('C_AUTO') & 0xffffffff, 32))
    C(r'^sofa::pbrpc::RpcController::RpcController\(\)', mkcntl)

    def call(e, s, a, n):
        f = lambda k, w=64: e.load(s, P(c.I, e.off(k)), ('i', w))
        e.oblige(s, z3.BoolVal(c.is_r(a[0]) and c.isobj(a[1], c.B) and isinstance(a[2], P) and a[2].obj is c.cntl and c.isobj(a[3], c.q) and c.isobj(a[4], c.r)), 'hands-over-what-it-made')
        e.oblige(s, ptr_term(e.load(s, P(c.I, e.off('i_stream')), ('ptr',))) == stream, 'answers-go-to-the-connection-it-came-from')
        e.oblige(s, And(f('i_seq') == m['sequence_id'], same(e, s, get_str(e, s, P(c.I, e.off('i_method'))))), 'identified-as-requested')
        e.oblige(s, f('i_timeout') == z3.If(And(h['server_timeout'], m['server_timeout'] > 0), m['server_timeout'], c64(0)), 'the-deadline-requested')
        e.oblige(s, f('i_recv') == recv, 'the-time-it-came')
        ur, ar = f('i_uresp', 32), f('i_aresp', 32)
        e.oblige(s, z3.If(ur != BV(e.off('C_AUTO') & 0xffffffff, 32), ur, ar) == z3.If(h['expected_response_compress_type'], m['expected_response_compress_type'], BV(e.off('C_NONE'), 32)), 'the-compression-requested')
        c.add(s, 'call')
    C(RR + r'CallMethod', call, trusted=False)
    for s, r in eng.call(st, eng.find(BR + r'ProcessRequest'), [P(c.R), P(wp), P(pp)]):
        eng.cover(s)
        g = s.ghost
        E = lambda k: BV(eng.off(k), 32)
        eng.oblige(s, g['call'] + g['fail'] == 1, 'dispatched-or-answered-once')
        why = z3.If(g['split'] == 0, E('E_NAME'), z3.If(g['found'] == 0, E('E_FOUND'), E('E_PARSE')))
        eng.oblige(s, Implies(g['fail'] == 1, And(g['code'] == why, g['parsed'] == 0)), 'with-the-error-that-applies')
        eng.oblige(s, Implies(g['call'] == 1, And(g['parsed'] == 1, g['newr'] == 1, g['del_q'] == 0, g['del_r'] == 0)), 'nothing-freed-that-was-handed-over')
        eng.oblige(s, Implies(g['fail'] == 1, And(g['del_q'] == g['newq'], g['del_r'] == g['newr'])), 'nothing-leaks-after-an-error')


PROP.native('server', 'server.cc', args=['binary', '60'], thorough_args=['binary', '2000'],
            what='real server against a scripted client: every request is run once and answered once, with the right content or error', **F01.ALL)
