"""S01: a response completes exactly the call whose sequence id it carries, with the outcome it states."""
import re
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.cont import *
from vf.maps import *
import props.F01 as F01

PROP = Prop('S01')
PROP.assumptions = ['std::map is a finite function from keys to values; FastLock provides mutual exclusion',
                    'protobuf parses RpcMeta from exactly the meta_size bytes it is given, or reports failure',
                    'RpcControllerImpl::Done completes the call at most once (proved in C01)']
TU = '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/rpc_client_stream.h>
#include <sofa/pbrpc/rpc_error_code.h>
#include <sofa/pbrpc/buffer.cc>
using namespace sofa::pbrpc;
extern "C" void* vf_mk(IOService& s, const RpcEndpoint& e) { return new RpcClientStream(s, e); }
extern "C" void vf_use(RpcClientStream* s, const RpcControllerImplPtr& c) { s->call_method(c); s->erase_request(1); }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_map, RpcClientStream, _controller_map) OFF(o_lock, RpcClientStream, _controller_map_lock) OFF(o_em, RpcClientStream, _error_message)
OFF(o_status, RpcClientStream, _status) OFF(o_cb, RpcClientStream, _closed_stream_callback)
extern "C" const unsigned long SZ = sizeof(RpcClientStream), SP = sizeof(RpcControllerImplPtr);
extern "C" const unsigned long E_OK = RPC_SUCCESS, E_PARSE = RPC_ERROR_PARSE_RESPONSE_MESSAGE, E_CLOSED = RPC_ERROR_CONNECTION_CLOSED;
extern "C" const unsigned long T_RESPONSE = RpcMeta::RESPONSE, C_NONE = CompressTypeNone;
extern "C" const unsigned long CLOSED = RpcClientStream::STATUS_CLOSED, CONNECTED = RpcClientStream::STATUS_CONNECTED;
'''
PROP.tu('cstream', TU)
CS = r'^sofa::pbrpc::RpcClientStream::'


class Ctx:
    pass


def mk(eng):
    c = Ctx()
    st = State()
    c.S = eng.new_obj(st, 'stream', 'cells', size=eng.off('SZ'))
    eng.set_vptr(st, c.S, 'sofa::pbrpc::RpcClientStream')
    eng.region(st, c.S, eng.off('o_em'), 128, 'errormessage')
    c.x = fresh('x', 64)            # an arbitrary sequence id
    c.map = P(c.S, eng.off('o_map'))
    st.ghost.update({'locked': BV(0, 8), 'dones': c64(0), 'donex': c64(0), 'freed': BV(0, 8)})

    def guard(e, s, p):
        if p.obj is c.S:
            e.oblige(s, s.ghost['locked'] == 1, 'the-call-table-is-touched-only-under-its-lock')
    c.M = Maps(eng, guard=guard)
    c.M.watch = [c.x]
    c.m0 = c.M.get(st, c.map)
    contracts(eng, c)
    return c, st


def env_calls(eng, c, s):
    """other threads may have added and removed calls"""
    v = c.M.get(s, c.map)
    nv = MapV(z3.Array(nm('pres'), KS, BS_), z3.Array(nm('val'), KS, KS), (), v.loc)
    c.M.put(s, c.map, nv)


BS_ = z3.BoolSort()


def nonnull(c, s, v, k):
    """no null handle is ever stored (obligation of call_method)"""
    s.assume(Implies(z3.Select(v.pres, k), z3.Select(v.val, k) != 0))


def contracts(eng, c):
    C = eng.contract

    def lock(e, s, a, n):
        if isinstance(a[0], P) and a[0].obj is c.S:
            e.oblige(s, And(s.ghost['locked'] == 0, z3.BoolVal(a[0].off == e.off('o_lock'))), 'locks-the-table-lock-once')
            e.setghost(s, 'locked', BV(1, 8))
            env_calls(e, c, s)
            v = c.M.get(s, c.map)
            e.setghost(s, 'atlock', v)
            s.ghost['atlock'] = v

    def unlock(e, s, a, n):
        if isinstance(a[0], P) and a[0].obj is c.S:
            e.oblige(s, s.ghost['locked'] == 1, 'unlocks-what-it-locked')
            v = c.M.flush(s, c.M.get(s, c.map))
            c.M.put(s, c.map, v)
            s.ghost['atunlock'] = v
            e.setghost(s, 'locked', BV(0, 8))
    C(r'^(int )?pthread_(spin|mutex)_lock|^sofa::pbrpc::(SpinLock|MutexLock)::lock\(', lock)
    C(r'^(int )?pthread_(spin|mutex)_unlock|^sofa::pbrpc::(SpinLock|MutexLock)::unlock\(', unlock)
    C(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(3)))
    SP = r'^sofa::pbrpc::shared_ptr<sofa::pbrpc::(RpcControllerImpl|ReadBuffer)>::'
    C(SP + r'(operator->|operator\*|get)\(', lambda e, s, a, n: e.load(s, a[0], ('ptr',)))

    def sp_copy(e, s, a, n):
        e.store(s, a[0], ('ptr',), e.load(s, a[1], ('ptr',)))
        return a[0]
    C(SP + r'operator=', sp_copy)
    C(SP + r'shared_ptr\(sofa::pbrpc::shared_ptr<sofa::pbrpc::\w+> const&\)', sp_copy)
    C(SP + r'shared_ptr\(\)', lambda e, s, a, n: e.store(s, a[0], ('ptr',), c64(0)))
    C(SP + r'~shared_ptr', nop)
    C(SP + r'operator!', lambda e, s, a, n: ptr_term(e.load(s, a[0], ('ptr',))) == 0)
    C(SP + r'operator bool', lambda e, s, a, n: ptr_term(e.load(s, a[0], ('ptr',))) != 0)

    # the call handle
    CT = r'^sofa::pbrpc::RpcControllerImpl::'
    SEQ = z3.Function('sequence_id_of', KS, KS)
    REQ = z3.Function('request_of', KS, KS)
    c.SEQ, c.REQ = SEQ, REQ
    C(CT + r'SequenceId\(\) const', lambda e, s, a, n: SEQ(ptr_term(a[0])))

    def reqbuf(e, s, a, n):
        o = e.new_obj(s, 'reqptr', 'cells', size=16)
        e.store(s, P(o), ('ptr',), REQ(ptr_term(a[0])))
        return P(o)
    C(CT + r'RequestBuffer\(\) const', reqbuf)

    def isdone(e, s, a, n):
        r = fresh('isdone', 1)
        s.ghost['isdone'] = r
        s.ghost['isdone_of'] = ptr_term(a[0])
        return r
    C(CT + r'IsDone\(\) const', isdone)

    def cancel(e, s, a, n):
        r = fresh('cancel', 1)
        s.ghost['cancel'] = r
        return r
    C(CT + r'IsStartCancel\(\) const', cancel)

    def done(e, s, a, n):
        p = ptr_term(a[0])
        e.setghost(s, 'dones', z3.simplify(s.ghost['dones'] + 1))
        hook = getattr(c, 'on_done', None)
        s.ghost['done_of'], s.ghost['done_code'] = p, a[1]
        try:
            v = get_str(e, s, a[2])
            s.ghost['done_reason'] = (str_arr(e, s, v), v.len)
        except Unsupported:
            pass
        if hook:
            hook(e, s, p, a[1])
    C(CT + r'Done\(int, ', done, trusted=False)

    def setbuf(e, s, a, n):
        s.ghost['rbuf'] = (ptr_term(a[0]), ptr_term(e.load(s, a[1], ('ptr',))))
    C(CT + r'SetResponseBuffer', setbuf)

    def setct(e, s, a, n):
        s.ghost['rct'] = (ptr_term(a[0]), a[1])
    C(CT + r'SetResponseCompressType', setct)
    C(r'^sofa::pbrpc::ReadBuffer::TotalCount\(\) const', lambda e, s, a, n: c.total, trusted=False)
    C(r'^sofa::pbrpc::ReadBuffer::ByteCount\(\) const', lambda e, s, a, n: s.ghost['consumed'], trusted=False)


@PROP.job('on_received', 'cstream')
def j_received(eng):
    c, st = mk(eng)
    c.total = fresh('total', 64)
    msize, dsize = fresh('meta_size', 32), fresh('data_size', 64)
    st.assume(And(msize >= 0, dsize >= 0, c.total == sx(msize) + dsize, z3.ULT(c.total, 1 << 62)))     # F01: sizes as framed
    st.ghost['consumed'] = c64(0)
    mo = eng.new_obj(st, 'message', 'cells', size=16)
    msgo = eng.new_obj(st, 'msg', 'cells', size=256)
    eng.set_vptr(st, msgo, 'sofa::pbrpc::ReadBuffer')
    mp = msgo.addr
    eng.store(st, P(mo), ('ptr',), P(msgo))
    meta = {k: (z3.Bool('has_' + k), fresh(k, w)) for k, w in (('type', 32), ('sequence_id', 64), ('failed', 1), ('error_code', 32), ('compress_type', 32))}
    meta['reason'] = (z3.Bool('has_reason'), None)
    reason = eng.new_obj(st, 'reason', 'cells', size=32)
    rarr, rlen = ASym('reasontext'), fresh('rlen', 64)
    set_str(eng, st, P(reason), rarr, rlen)
    seq = meta['sequence_id'][1]
    C = eng.contract
    C(r'^sofa::pbrpc::RpcMeta::(RpcMeta|~RpcMeta)\(', nop)

    def parse(e, s, a, n):
        e.oblige(s, a[2] == msize, 'parses-exactly-the-meta-part')
        s2 = s.copy()
        e.setghost(s, 'consumed', sx(msize))
        s.ghost['parsed'] = TRUE
        e.setghost(s2, 'consumed', fresh('part', 64))
        return [(s, TRUE), (s2, FALSE)]
    C(r'^google::protobuf::MessageLite::ParseFromBoundedZeroCopyStream', parse)

    def field(e, s, a, n):
        import re
        m = re.match(r'sofa::pbrpc::RpcMeta::(has_)?(\w+)(?:\[abi:cxx11\])?\(\) const', e.demangled(n))
        h, v = meta[m.group(2)]
        if m.group(1):
            return h
        if m.group(2) == 'reason':
            return P(reason)
        return v
    C(r'^sofa::pbrpc::RpcMeta::(has_)?(type|sequence_id|failed|error_code|reason|compress_type)(\[abi:cxx11\])?\(\) const', field)
    M = c.M

    fn = eng.find(CS + r'on_received\(')
    outcomes = 0
    for s, r in eng.call(st, fn, [P(c.S), P(mo), msize, dsize]):
        eng.cover(s)
        g = s.ghost
        n = g['dones']
        if 'parsed' not in g:
            eng.oblige(s, And(n == 0, z3.BoolVal('atlock' not in g)), 'unreadable-meta-completes-nothing')
            continue
        isresp = meta['type'][1] == eng.off('T_RESPONSE')
        if 'atlock' not in g:
            eng.oblige(s, And(n == 0, Not(isresp)), 'only-a-non-response-is-ignored-unseen')
            continue
        v, w = g['atlock'], g['atunlock']
        had, cntl = z3.Select(v.pres, seq), z3.Select(v.val, seq)
        s.assume(Implies(had, cntl != 0))      # no null handle is ever stored (obligation of call_method)
        eng.oblige(s, isresp, 'only-responses-are-matched')
        eng.oblige(s, z3.ULE(n, 1), 'completes-at-most-one-call')
        eng.oblige(s, Implies(c.x != seq, And(z3.Select(w.pres, c.x) == z3.Select(v.pres, c.x), Implies(z3.Select(v.pres, c.x), z3.Select(w.val, c.x) == z3.Select(v.val, c.x)))), 'other-calls-stay-pending')
        eng.oblige(s, Not(z3.Select(w.pres, seq)), 'the-answered-call-is-no-longer-pending')
        isd = g.get('isdone', FALSE)
        eng.oblige(s, Implies(had, z3.BoolVal('isdone' in g)) if 'isdone' not in g else TRUE, 'looks-whether-it-is-done') if False else None
        eng.oblige(s, (n == 1) == And(had, Not(isd)), 'completes-the-pending-call-and-no-other')
        if 'done_of' in g:
            outcomes += 1
            code = g['done_code']
            eng.oblige(s, g['done_of'] == cntl, 'completes-the-call-with-that-sequence-id')
            failed = meta['failed'][1] if z3.is_bool(meta['failed'][1]) else meta['failed'][1] == 1
            ok = And(meta['failed'][0], Not(failed))
            rem = And(meta['failed'][0], failed, meta['error_code'][0], meta['reason'][0], meta['error_code'][1] != eng.off('E_OK'))
            eng.oblige(s, (code == eng.off('E_OK')) == ok, 'succeeds-iff-the-response-says-so')
            eng.oblige(s, Implies(rem, code == meta['error_code'][1]), 'fails-with-the-code-of-the-response')
            if 'done_reason' in g:
                da, dl = g['done_reason']
                eng.oblige(s, Implies(rem, And(dl == rlen, Implies(z3.ULT(c.x, rlen), da.get(c.x) == rarr.get(c.x)))), 'fails-with-the-reason-of-the-response')
            eng.oblige(s, Implies(And(Not(ok), Not(rem)), code == eng.off('E_PARSE')), 'an-incomplete-response-is-a-parse-failure')
            if 'rbuf' in g:
                eng.oblige(s, And(g['rbuf'][0] == cntl, g['rbuf'][1] == mp, g['consumed'] == sx(msize)), 'the-answer-is-the-data-of-this-message')
            eng.oblige(s, Implies(ok, z3.BoolVal('rbuf' in g and 'rct' in g)), 'the-answer-is-handed-over')
            if 'rct' in g:
                eng.oblige(s, And(g['rct'][0] == cntl, g['rct'][1] == z3.If(meta['compress_type'][0], meta['compress_type'][1], BV(eng.off('C_NONE'), 32))), 'with-the-compression-it-states')
    eng.oblige(st, z3.BoolVal(outcomes >= 3), 'outcomes')


def cntl_arg(eng, st):
    p = fresh('cntl', 64)
    st.assume(p != 0)
    o = eng.new_obj(st, 'cntlptr', 'cells', size=16)
    eng.store(st, P(o), ('ptr',), p)
    return o, p


@PROP.job('call_method', 'cstream')
def j_call(eng):
    c, st = mk(eng)
    o, p = cntl_arg(eng, st)
    seq = c.SEQ(p)
    st.ghost['sent'] = c64(0)

    def send(e, s, a, n):
        e.oblige(s, And(ptr_term(e.load(s, a[1], ('ptr',))) == c.REQ(p), ptr_term(e.load(s, a[2], ('ptr',))) == p), 'sends-the-request-of-the-call')
        if 'atunlock' not in s.ghost:
            e.oblige(s, FALSE, 'registered-before-it-is-sent')
            return
        w = s.ghost['atunlock']
        e.oblige(s, And(z3.Select(w.pres, seq), z3.Select(w.val, seq) == p, s.ghost['locked'] == 0), 'registered-before-it-is-sent')
        e.setghost(s, 'sent', z3.simplify(s.ghost['sent'] + 1))
    eng.contract(r'^sofa::pbrpc::RpcMessageStream<.*>::async_send_message\(', send, trusted=False)

    def env(e, s, pt):
        if isinstance(pt, P) and pt.obj is c.S and pt.off == e.off('o_status'):
            n = fresh('status', 32)
            s.assume(Or(n == e.load(s, P(c.S, e.off('o_status')), ('i', 32)), n == e.off('CLOSED')))
            e.wst(s, c.S).cells[e.off('o_status')] = (4, n)
    eng.interfere = env
    fn = eng.find(CS + r'call_method\(')
    for s, r in eng.call(st, fn, [P(c.S), P(o)]):
        eng.cover(s)
        g = s.ghost
        eng.oblige(s, g['sent'] + g['dones'] == 1, 'sent-or-failed-exactly-once')
        if 'done_of' in g:
            eng.oblige(s, And(g['done_of'] == p, g['done_code'] == eng.off('E_CLOSED'), eng.load(s, P(c.S, eng.off('o_status')), ('i', 32)) == eng.off('CLOSED')), 'fails-as-closed-only-when-closed')
        if 'atlock' in g:
            v, w = g['atlock'], g['atunlock']
            eng.oblige(s, Implies(c.x != seq, And(z3.Select(w.pres, c.x) == z3.Select(v.pres, c.x), Implies(z3.Select(v.pres, c.x), z3.Select(w.val, c.x) == z3.Select(v.val, c.x)))), 'other-calls-untouched')


@PROP.job('erase_and_send_failed', 'cstream')
def j_fail(eng):
    c, st = mk(eng)
    o, p = cntl_arg(eng, st)
    code = fresh('code', 32)
    mo = eng.new_obj(st, 'message', 'cells', size=16)
    s0 = st.copy()
    for which in (0, 1):
        st = s0.copy()
        if which == 0:
            seq = c.SEQ(p)
            args = [P(c.S), code, P(mo), P(o)]
            fn = eng.find(CS + r'on_send_failed\(')
        else:
            seq = fresh('seq', 64)
            args = [P(c.S), seq]
            fn = eng.find(CS + r'erase_request\(')
        for s, r in eng.call(st, fn, args):
            eng.cover(s)
            g = s.ghost
            v, w = g['atlock'], g['atunlock']
            eng.oblige(s, And(Not(z3.Select(w.pres, seq)), g['locked'] == 0), 'no-longer-pending')
            eng.oblige(s, Implies(c.x != seq, And(z3.Select(w.pres, c.x) == z3.Select(v.pres, c.x), Implies(z3.Select(v.pres, c.x), z3.Select(w.val, c.x) == z3.Select(v.val, c.x)))), 'other-calls-untouched')
            if which == 0:
                eng.oblige(s, And(g['dones'] == 1, g.get('done_of', c64(0)) == p, g.get('done_code', code + 1) == code), 'fails-that-call-with-that-code')
            else:
                eng.oblige(s, g['dones'] == 0, 'erasing-completes-nothing')


@PROP.job('on_sending', 'cstream')
def j_sending(eng):
    c, st = mk(eng)
    o, p = cntl_arg(eng, st)
    mo = eng.new_obj(st, 'message', 'cells', size=16)
    fn = eng.find(CS + r'on_sending\(')
    for s, r in eng.call(st, fn, [P(c.S), P(mo), P(o)]):
        eng.cover(s)
        g = s.ghost
        b = r if z3.is_bool(r) else r == 1
        eng.oblige(s, Implies(b, And(Not(g.get('isdone', TRUE)), Not(g.get('cancel', FALSE)))), 'a-finished-call-is-not-sent')
        eng.oblige(s, Implies(Not(b), Or(g.get('isdone', FALSE), g.get('cancel', FALSE))), 'an-open-call-is-sent')


def closing(eng, which):
    c, st = mk(eng)
    M = c.M
    st.ghost['cb'] = c64(0)
    C = eng.contract
    C(r'^boost::function(1|<.*>)?(<.*>)?::operator\(\)', lambda e, s, a, n: e.setghost(s, 'cb', z3.simplify(s.ghost['cb'] + 1)))
    C(r'^boost::function1<.*>::operator\(\)', lambda e, s, a, n: e.setghost(s, 'cb', z3.simplify(s.ghost['cb'] + 1)))

    def hascb(e, s, a, n):
        r = fresh('hascb', 1)
        s.ghost['hascb'] = r
        return r if re.search(r'operator bool|empty', e.demangled(n)) else Agg([z3.If(r, c64(1), c64(0)), c64(0)])
    C(r'^boost::(function1|function)<.*>::(operator bool|operator .*\(\) const|empty)', hascb)
    C(r'.*shared_from_this', nop)
    C(r'.*dynamic_pointer_cast', nop)
    C(r'^sofa::pbrpc::shared_ptr<sofa::pbrpc::RpcClientStream>::', nop)
    C(r'^sofa::pbrpc::shared_ptr<sofa::pbrpc::RpcByteStream>::', nop)

    def on_done(e, s, p, code):
        e.oblige(s, code == e.off('E_CLOSED'), 'pending-calls-fail-as-closed')
        ks = [k for k in s.ghost if isinstance(k, tuple) and k[0] == 'enum']
        q = s.ghost[ks[0]][0]
        x, ix = q.obj.watch[0]
        i = s.ghost['dones'] - 1
        e.oblige(s, z3.ULT(i, q.len), 'completes-only-pending-calls')
        e.oblige(s, p == q.at(e, s, i, M.voff, 8), 'completes-each-pending-call')
        s.assume(Implies(And(z3.ULT(i, q.len), q.at(e, s, i, 0, 8) == x), i == ix))
        e.setghost(s, 'donex', z3.simplify(s.ghost['donex'] + z3.If(And(q.at(e, s, i, 0, 8) == x), c64(1), c64(0))))
    c.on_done = on_done

    def inv(eng, ctx):
        ks = [k for k in ctx.st0.ghost if isinstance(k, tuple) and k[0] == 'enum']
        if not ks:
            return []
        q, pres = ctx.st0.ghost[ks[0]]
        x, ix = q.obj.watch[0]
        out = [('done-so-far', lambda s, e: And(z3.ULE(s.ghost['dones'], q.len), s.ghost['donex'] == z3.If(And(z3.Select(pres, x), z3.ULT(ix, s.ghost['dones'])), c64(1), c64(0))))]
        for nm_, ty in ctx.phis:
            v = ctx.env0[nm_]
            if isinstance(v, P) and v.obj is q.obj:
                out.append(('iterator', lambda s, e, nm_=nm_: eng.elem_split(e[nm_])[0] == s.ghost['dones']))
        for oid, o in stack_objs(eng, ctx):
            for off, (size, v) in list(ctx.st0.mem[oid].cells.items()):
                if isinstance(v, P) and v.obj is q.obj:
                    w, r = eng.elem_split(v)
                    if eng.proved(ctx.st0, w == ctx.st0.ghost['dones']):
                        out.append(('iterator[%d]' % oid, lambda s, e, oid=oid, off=off: eng.elem_split(s.mem[oid].cells[off][1])[0] == s.ghost['dones']))
        return out
    eng.loopspecs.append(('.', inv))
    return c, st


@PROP.job('on_closed', 'cstream')
def j_closed(eng):
    c, st = closing(eng, 0)
    fn = eng.find(CS + r'on_closed\(\)')
    for s, r in eng.call(st, fn, [P(c.S)]):
        eng.cover(s)
        g = s.ghost
        v, w = g['atlock'], g['atunlock']
        eng.oblige(s, Not(z3.Select(w.pres, c.x)), 'no-call-stays-pending')
        eng.oblige(s, g['donex'] == z3.If(z3.Select(v.pres, c.x), c64(1), c64(0)), 'every-pending-call-is-completed-once')
        eng.oblige(s, g['cb'] == z3.If(g.get('hascb', FALSE), c64(1), c64(0)), 'the-owner-is-told')


PROP.native('client', 'client.cc', args=['match', '12'], thorough_args=['match', '400'],
            what='real client against a scripted peer: shuffled, duplicate, foreign, failed, incomplete and undecodable responses', **F01.ALL)
