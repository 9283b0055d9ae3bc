"""C01: every call completes exactly once, with its outcome, through the callback or the waiting caller."""
import re
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.cont import *
import props.F01 as F01

PROP = Prop('C01')
PROP.assumptions = ['pthread mutexes exclude each other and pthread_cond_wait gives the lock back while waiting',
                    'ThreadGroup::post runs the closure exactly once (job queue of boost::asio)',
                    'std::deque behaves as a sequence; boost::function calls the function it was given',
                    'completion callbacks are pushed before the call is handed over, by the calling thread only']
TU = '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/simple_rpc_channel_impl.cc>
#include <sofa/pbrpc/mock_test_helper.cc>
#include <sofa/pbrpc/wait_event.h>
extern "C" void vf_mock_run(void*, const void*, const void*, void*, void*);
namespace sofa { namespace pbrpc { struct VFMock : MockMethodHookFunction {
  void Run(::google::protobuf::RpcController* c, const ::google::protobuf::Message* q, ::google::protobuf::Message* r, ::google::protobuf::Closure* d) { vf_mock_run(c, q, r, d, this); }
  bool IsSelfDelete() const { return false; } };
  MockMethodHookFunction* vf_mk(bool* p) { VFMock* m = new VFMock; *p = m->IsSelfDelete(); return m; } } }
using namespace sofa::pbrpc;
extern "C" void vf_use(RpcControllerImpl* c, const RpcControllerImpl::InternalDoneCallback& f, WaitEvent* w, const std::string& r) { c->PushDoneCallback(f); c->Done(1, r); w->Wait(); w->Signal(); c->SetFailed(r); }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_done, RpcControllerImpl, _is_done) OFF(o_cbs, RpcControllerImpl, _done_callbacks) OFF(o_code, RpcControllerImpl, _error_code) OFF(o_reason, RpcControllerImpl, _reason)
OFF(o_sent, RpcControllerImpl, _is_request_sent) OFF(o_sync, RpcControllerImpl, _is_sync)
OFF(o_wait, SimpleRpcChannelImpl, _wait_count) OFF(o_resolved, SimpleRpcChannelImpl, _resolve_address_succeed) OFF(o_mock, SimpleRpcChannelImpl, _is_mock)
OFF(o_sig, WaitEvent, _signaled) OFF(o_lock, WaitEvent, _lock) OFF(o_cond, WaitEvent, _cond)
extern "C" const unsigned long SZ_C = sizeof(RpcControllerImpl), SZ_S = sizeof(SimpleRpcChannelImpl), SZ_W = sizeof(WaitEvent), SZ_F = sizeof(RpcControllerImpl::InternalDoneCallback);
extern "C" const unsigned long E_TIMEOUT = RPC_ERROR_REQUEST_TIMEOUT, E_RESOLVE = RPC_ERROR_RESOLVE_ADDRESS, E_METHOD = RPC_ERROR_FOUND_METHOD;
'''
PROP.tu('ctl', TU)
CT = r'^sofa::pbrpc::RpcControllerImpl::'
CH = r'^sofa::pbrpc::SimpleRpcChannelImpl::'


class Ctx:
    pass


def ctl(eng, st, c):
    c.C = eng.new_obj(st, 'cntl', 'cells', size=eng.off('SZ_C'))
    o = Obj('callbacks', 'elems', stride=eng.off('SZ_F'))
    o.layout = [(0, 8)]
    n = fresh('ncb', 64)
    st.assume(z3.ULT(n, 1 << 30))
    c.cbs = P(c.C, eng.off('o_cbs'))
    put_seq(eng, st, c.cbs, SeqV(o, c64(0), n))
    c.n0 = n
    return c


@PROP.job('Done', 'ctl')
def j_done(eng):
    """whoever is first to call Done settles the call: its code and reason are recorded, then every callback runs once, last
    pushed first; everybody else changes nothing"""
    c = ctl(eng, st := State(), Ctx())
    st.ghost.update({'calls': c64(0), 'mine': BV(0, 8)})
    reason = eng.new_obj(st, 'reason', 'cells', size=32)
    rarr, rlen = ASym('r'), fresh('rlen', 64)
    st.assume(z3.ULT(rlen, 1 << 40))
    set_str(eng, st, P(reason), rarr, rlen)
    code = fresh('code', 32)
    rd = lambda s, n, b: eng.load(s, P(c.C, eng.off(n)), ('i', b))
    st.assume(z3.ULE(rd(st, 'o_done', 32), 1))

    def env(e, s, p):
        if isinstance(p, P) and p.obj is c.C and p.off == e.off('o_done'):
            # another thread may win; nobody takes it back
            old = rd(s, 'o_done', 32)
            n = fresh('done', 32)
            s.assume(And(z3.ULE(n, 1), z3.UGE(n, old)))
            e.wst(s, c.C).cells[e.off('o_done')] = (4, n)
    eng.interfere = env

    def won(e, s, p, old, new, hit):
        if isinstance(p, P) and p.obj is c.C and p.off == e.off('o_done'):
            e.setghost(s, 'mine', z3.simplify(z3.If(And(hit, old == 0, new == 1), BV(1, 8), s.ghost['mine'])))
    eng.after_cas = won

    def cb(e, s, a, n):
        k = s.ghost['calls']
        e.oblige(s, s.ghost['mine'] == 1, 'only-the-winner-runs-callbacks')
        e.oblige(s, rd(s, 'o_code', 32) == code, 'the-outcome-is-recorded-before-the-callbacks')
        p = a[0]
        if not (isinstance(p, P) and p.obj.kind == 'elems'):
            raise Unsupported('callback %r' % (p,))
        i, r = e.elem_split(p)
        v = get_seq(e, s, c.cbs)
        e.oblige(s, And(i == c.n0 - 1 - k, r == 0, z3.ULT(k, c.n0)), 'last-pushed-first-each-once')
        e.setghost(s, 'calls', z3.simplify(k + 1))
    eng.contract(r'^boost::function1<.*>::operator\(\)\(', cb)
    eng.contract(r'.*shared_from_this', nop)
    eng.contract(r'^sofa::pbrpc::shared_ptr<sofa::pbrpc::RpcControllerImpl>::', nop)
    eng.contract(r'^std::deque<boost::function<.*>::back\(\)', lambda e, s, a, n: (lambda v: (e.oblige(s, v.len != 0, 'back-nonempty'), elem_ptr(v, v.len - 1))[1])(get_seq(e, s, a[0])))

    def inv(eng, ctx):
        return [('callbacks-left', lambda s, e: And(s.ghost['mine'] == 1, z3.ULE(s.ghost['calls'], c.n0), get_seq(eng, s, c.cbs).len == c.n0 - s.ghost['calls'],
                                                    get_seq(eng, s, c.cbs).lo == 0, rd(s, 'o_code', 32) == code))]
    eng.loopspecs.append(('.', inv))
    s0 = st.copy()
    wins = 0
    fn = eng.find(CT + r'Done\(')
    for s, r in eng.call(st, fn, [P(c.C), code, P(reason)]):
        eng.cover(s)
        g = s.ghost
        mine = g['mine'] == 1
        wins += 1 if eng.feasible(s, mine) else 0
        eng.oblige(s, rd(s, 'o_done', 32) == 1, 'done-afterwards')
        eng.oblige(s, g['calls'] == z3.If(mine, c.n0, c64(0)), 'every-callback-ran-once')
        eng.oblige(s, Implies(Not(mine), rd(s, 'o_code', 32) == rd(s0, 'o_code', 32)), 'a-later-outcome-changes-nothing')
        v = get_str(eng, s, P(c.C, eng.off('o_reason')))
        v0 = get_str(eng, s0, P(c.C, eng.off('o_reason')))
        eng.oblige(s, Implies(mine, rd(s, 'o_code', 32) == code), 'first-outcome-is-recorded')
        k = fresh('k', 64)
        eng.oblige(s, Implies(mine, And(z3.UGE(v.len, rlen), Implies(z3.ULT(k, rlen), str_arr(eng, s, v).get(k) == rarr.get(k)), Implies(code != eng.off('E_TIMEOUT'), v.len == rlen))), 'first-reason-is-recorded')
        eng.oblige(s, Implies(Not(mine), And(v.len == v0.len)), 'a-later-reason-changes-nothing')
    eng.oblige(st, z3.BoolVal(wins >= 1), 'a-winning-path')


def wait_ctx(eng):
    c, st = Ctx(), State()
    c.W = eng.new_obj(st, 'event', 'cells', size=eng.off('SZ_W'))
    st.ghost.update({'held': BV(0, 8), 'woken': c64(0), 'seen': BV(0, 8), 'signalled': c64(0)})
    rd = lambda s: eng.load(s, P(c.W, eng.off('o_sig')), ('i', 8))
    c.rd = rd
    isobj = lambda e, a, n: isinstance(a, P) and a.obj is c.W and a.off == e.off(n)

    def others(e, s):
        n = fresh('signaled', 8)
        s.assume(z3.ULE(n, 1))
        e.wst(s, c.W).cells[e.off('o_sig')] = (1, n)

    def lock(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(isobj(e, a[0], 'o_lock')), s.ghost['held'] == 0), 'locks-the-event')
        e.setghost(s, 'held', BV(1, 8))
        others(e, s)
        return BV(0, 32)

    def unlock(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(isobj(e, a[0], 'o_lock')), s.ghost['held'] == 1), 'unlocks-the-event')
        e.setghost(s, 'held', BV(0, 8))
        return BV(0, 32)

    def wait(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(isobj(e, a[0], 'o_cond') and isobj(e, a[1], 'o_lock')), s.ghost['held'] == 1), 'waits-holding-the-lock')
        e.oblige(s, rd(s) == 0, 'waits-only-when-not-signalled')
        others(e, s)
        return BV(0, 32)

    def signal(e, s, a, n):
        e.oblige(s, z3.BoolVal(isobj(e, a[0], 'o_cond')), 'signals-the-event')
        e.setghost(s, 'woken', z3.simplify(s.ghost['woken'] + 1))
        return BV(0, 32)
    C = eng.contract
    C(r'^pthread_mutex_lock', lock)
    C(r'^pthread_mutex_unlock', unlock)
    C(r'^pthread_cond_wait', wait)
    C(r'^pthread_cond_(signal|broadcast)', signal)
    return c, st


@PROP.job('WaitEvent', 'ctl')
def j_wait(eng):
    c, st = wait_ctx(eng)
    st.assume(z3.ULE(c.rd(st), 1))
    # ghost: the event was seen signalled under the lock
    watch = {}

    def inv(eng, ctx):
        return [('holds-the-lock', lambda s, e: And(s.ghost['held'] == 1, z3.ULE(c.rd(s), 1)))]
    eng.loopspecs.append(('Wait', inv))
    unl = []
    base = eng.contract

    def unlock(e, s, a, n):
        e.oblige(s, s.ghost['held'] == 1, 'unlocks-the-event')
        e.setghost(s, 'held', BV(0, 8))
        e.setghost(s, 'left', c.rd(s))
        return BV(0, 32)
    base(r'^pthread_mutex_unlock', unlock)
    st.ghost['left'] = fresh('left', 8)
    s0 = st.copy()
    fn = eng.find(r'^sofa::pbrpc::WaitEvent::Wait\(\)')
    for s, r in eng.call(st, fn, [P(c.W)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['held'] == 0, 'gives-the-lock-back')
        eng.oblige(s, s.ghost['left'] == 0, 'takes-the-signal')
        eng.oblige(s, s.ghost['woken'] == 0, 'wakes-nobody')
    fn = eng.find(r'^sofa::pbrpc::WaitEvent::Signal\(\)')
    for s, r in eng.call(s0, fn, [P(c.W)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['held'] == 0, 'gives-the-lock-back')
        eng.oblige(s, And(s.ghost['left'] == 1, s.ghost['woken'] == 1), 'leaves-the-signal-and-wakes-the-waiter')


@PROP.job('Wait-returns-only-when-signalled', 'ctl')
def j_wait2(eng):
    c, st = wait_ctx(eng)
    st.assume(z3.ULE(c.rd(st), 1))

    def env_store(e, s, a, n):
        # the last state of the flag while the lock was held, before the waiter resets it
        return None
    loads = {'last': None}

    def inv(eng, ctx):
        return [('holds-the-lock', lambda s, e: And(s.ghost['held'] == 1, z3.ULE(c.rd(s), 1), s.ghost['seen'] == 0))]
    eng.loopspecs.append(('Wait', inv))
    # every write of 0 must overwrite a 1
    orig = eng.store

    def store(s, ptr, ty, v):
        if isinstance(ptr, P) and ptr.obj is c.W and not ptr.sym and ptr.off == eng.off('o_sig') and eng.m.sizeof(ty) == 1:
            eng.oblige(s, Or(v != 0, c.rd(s) == 1), 'the-signal-was-there')
            eng.setghost(s, 'seen', BV(1, 8))
        return orig(s, ptr, ty, v)
    eng.store = store
    fn = eng.find(r'^sofa::pbrpc::WaitEvent::Wait\(\)')
    for s, r in eng.call(st, fn, [P(c.W)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['seen'] == 1, 'returns-only-after-taking-a-signal')


def chan(eng):
    c, st = Ctx(), State()
    c.S = eng.new_obj(st, 'channel', 'cells', size=eng.off('SZ_S'))
    eng.set_vptr(st, c.S, 'sofa::pbrpc::SimpleRpcChannelImpl')
    c.C = eng.new_obj(st, 'cntl', 'cells', size=eng.off('SZ_C'))
    c.cp = eng.new_obj(st, 'cntlptr', 'cells', size=16)
    eng.store(st, P(c.cp), ('ptr',), P(c.C))
    z = c64(0)
    st.ghost.update({'post': z, 'signal': z, 'waited': z, 'done': z, 'call': z, 'push': z, 'fill': z, 'timer': z, 'mock': z})
    add = lambda s, k: eng.setghost(s, k, z3.simplify(s.ghost[k] + 1))
    c.add = add
    C = eng.contract
    SP = r'^sofa::pbrpc::shared_ptr<.*>::'
    C(SP + r'(operator->|operator\*|get)\(', lambda e, s, a, n: e.load(s, a[0], ('ptr',)))

    def sp_copy(e, s, a, n):
        e.store(s, a[0], ('ptr',), e.load(s, a[1], ('ptr',)))
        return a[0]
    C(SP + r'(operator=|shared_ptr\(sofa::pbrpc::shared_ptr<.*> const&\))', sp_copy)
    C(SP + r'~shared_ptr', nop)
    C(SP + r'shared_ptr<.*>\(sofa::pbrpc::\w+\*\)', lambda e, s, a, n: e.store(s, a[0], ('ptr',), a[1]))
    C(SP + r'operator!', lambda e, s, a, n: ptr_term(e.load(s, a[0], ('ptr',))) == 0)
    C(SP + r'operator bool', lambda e, s, a, n: ptr_term(e.load(s, a[0], ('ptr',))) != 0)
    C(SP + r'operator .*\(\) const', lambda e, s, a, n: Agg([ptr_term(e.load(s, a[0], ('ptr',))), c64(0)]))
    C(CT + r'IsSync\(\)', lambda e, s, a, n: e.load(s, e.padd(s, a[0], e.off('o_sync')), ('i', 8)) == 1)
    C(CT + r'IsDone\(\)', lambda e, s, a, n: z3.BoolVal(True) if False else fresh_done(e, s))
    C(r'.*shared_from_this', nop)
    C(r'^operator new\(unsigned long\)$', lambda e, s, a, n: P(e.new_obj(s, 'heap', 'cells', size=256)))
    return c, st


def fresh_done(e, s):
    r = fresh('isdone', 1)
    # the waiter returns from WaitEvent only after the signal of the completion callback, which runs after the call was marked done
    s.assume(Implies(s.ghost['waited'] != 0, r))
    return r


@PROP.job('DoneCallback', 'ctl')
def j_cb(eng):
    c, st = chan(eng)
    C = eng.contract
    done = fresh('closure', 64)
    sync = eng.load(st, P(c.C, eng.off('o_sync')), ('i', 8))
    st.assume(And(z3.ULE(sync, 1), (sync == 1) == (done == 0)))        # CallMethod: a null closure means a synchronous call
    ev = fresh('event', 64)
    evo = eng.new_obj(st, 'evptr', 'cells', size=16)
    eng.store(st, P(evo), ('ptr',), ev)
    st.assume(ev != 0)
    C(CT + r'WaitEvent\(\)', lambda e, s, a, n: P(evo))

    def signal(e, s, a, n):
        e.oblige(s, ptr_term(a[0]) == ev, 'wakes-the-caller-of-this-call')
        c.add(s, 'signal')
    C(r'^sofa::pbrpc::WaitEvent::Signal', signal, trusted=False)

    def post(e, s, a, n):
        e.oblige(s, And(ptr_term(a[1]) == done, done != 0), 'posts-the-closure-of-this-call')
        c.add(s, 'post')
    C(r'^sofa::pbrpc::ThreadGroupImpl::post\(', post)
    C(r'^sofa::pbrpc::RpcClientImpl::GetCallbackThreadGroup', lambda e, s, a, n: P(evo))
    w0 = eng.load(st, P(c.S, eng.off('o_wait')), ('i', 32))
    fn = eng.find(CH + r'DoneCallback\(')
    for s, r in eng.call(st, fn, [P(c.S), done, P(c.cp)]):
        eng.cover(s)
        g = s.ghost
        eng.oblige(s, And(g['post'] + g['signal'] == 1, (g['signal'] == 1) == (sync == 1)), 'tells-the-caller-exactly-once')
        eng.oblige(s, eng.load(s, P(c.S, eng.off('o_wait')), ('i', 32)) == w0 - 1, 'one-call-fewer-outstanding')


@PROP.job('CallMethod', 'ctl')
def j_call(eng):
    c, st = chan(eng)
    C = eng.contract
    done = fresh('closure', 64)
    sofa = eng.new_obj(st, 'sofacntl', 'cells', size=64)
    cli = eng.new_obj(st, 'client', 'cells', size=64)
    C(r'^__dynamic_cast', lambda e, s, a, n: P(sofa))
    eng.interfere = None

    def impl(e, s, a, n):
        if len(a) == 2:
            e.store(s, a[0], ('ptr',), P(c.C))
            return None
        return P(c.cp)
    C(r'^sofa::pbrpc::RpcController::impl\(\)', impl)

    def push(e, s, a, n):
        e.oblige(s, z3.BoolVal(isinstance(a[0], P) and a[0].obj is c.C), 'registers-with-this-call')
        e.oblige(s, And(s.ghost['done'] == 0, s.ghost['call'] == 0, s.ghost['mock'] == 0), 'registered-before-anything-can-complete-it')
        c.add(s, 'push')
    C(CT + r'PushDoneCallback', push)
    C(CT + r'FillFromMethodDescriptor', lambda e, s, a, n: c.add(s, 'fill'))
    C(r'^(boost::_bi::.* )?boost::bind<', nop)
    C(r'^boost::function(1)?<.*>::(~?function1?)', nop)
    C(r'^boost::_bi::', nop)
    C(CT + r'SetSync\(\)', lambda e, s, a, n: e.store(s, P(c.C, e.off('o_sync')), ('i', 8), BV(1, 8)))
    C(CT + r'SetWaitEvent', lambda e, s, a, n: c.add(s, 'fill'))
    C(CT + r'SetRemoteEndpoint', nop)
    C(CT + r'StartTimer', lambda e, s, a, n: c.add(s, 'timer'))
    evo = eng.new_obj(st, 'evptr', 'cells', size=16)
    C(CT + r'WaitEvent\(\)', lambda e, s, a, n: P(evo))
    C(r'^sofa::pbrpc::WaitEvent::WaitEvent', nop)
    C(r'^sofa::pbrpc::WaitEvent::Wait\(', lambda e, s, a, n: c.add(s, 'waited'), trusted=False)

    def dn(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(isinstance(a[0], P) and a[0].obj is c.C), s.ghost['push'] == 1), 'completes-this-call-after-registering')
        s.ghost['code'] = a[1]
        c.add(s, 'done')
    C(CT + r'Done\(', dn, trusted=False)

    def call(e, s, a, n):
        e.oblige(s, ptr_term(e.load(s, a[3], ('ptr',))) == c.C.addr, 'hands-over-this-call')
        e.oblige(s, And(s.ghost['push'] == 1, s.ghost['timer'] == 1), 'the-deadline-is-set-before-the-call-is-handed-over')
        c.add(s, 'call')
    C(r'^sofa::pbrpc::RpcClientImpl::CallMethod\(', call, trusted=False)
    C(r'^google::protobuf::MethodDescriptor::full_name', lambda e, s, a, n: P(named))
    named = eng.new_obj(st, 'fullname', 'cells', size=32)
    set_str(eng, st, P(named), ASym('name'), fresh('nlen', 64))

    eng.set_vptr(st, cli, 'sofa::pbrpc::MockTestHelperImpl')
    hook = eng.new_obj(st, 'hook', 'cells', size=16)
    eng.set_vptr(st, hook, 'sofa::pbrpc::VFMock')
    C(r'^sofa::pbrpc::MockTestHelper::GlobalInstance', lambda e, s, a, n: P(cli))
    C(r'^sofa::pbrpc::MockTestHelperImpl::GetMockMethod', lambda e, s, a, n: [(s.copy(), c64(0)), (s, P(hook))])
    st.ghost['closure'] = c64(0)

    def newc(e, s, a, n):
        e.oblige(s, ptr_term(e.load(s, a[1], ('ptr',))) == c.C.addr, 'the-mock-completes-this-call')
        s.ghost['closure'] = P(mockdone)
        return P(mockdone)
    mockdone = eng.new_obj(st, 'mockdone', 'cells', size=16)
    C(r'.*google::protobuf::NewClosure|^google::protobuf::Closure\* (google|sofa)::p.*::NewClosure|^.*::NewClosure<', newc)

    def run(e, s, a, n):
        e.oblige(s, z3.BoolVal(isinstance(a[3], P) and a[3].obj is mockdone), 'the-mock-gets-the-completion-of-this-call')
        e.oblige(s, s.ghost['push'] == 1, 'registered-before-anything-can-complete-it')
        c.add(s, 'mock')
    C(r'^vf_mock_run', run)
    eng.store(st, P(c.S, [o for o in [eng.off('o_wait')]][0]), ('i', 32), fresh('wc', 32))
    s_sync0 = eng.load(st, P(c.C, eng.off('o_sync')), ('i', 8))
    st.assume(s_sync0 == 0)
    w0 = eng.load(st, P(c.S, eng.off('o_wait')), ('i', 32))
    a = [eng.new_obj(st, k, 'cells', size=64) for k in ('method', 'controller', 'request', 'response')]
    fn = eng.find(CH + r'CallMethod\(')
    resolved = eng.load(st, P(c.S, eng.off('o_resolved')), ('i', 8))
    mock = eng.load(st, P(c.S, eng.off('o_mock')), ('i', 8))
    st.assume(And(z3.ULE(resolved, 1), z3.ULE(mock, 1)))
    for s, r in eng.call(st, fn, [P(c.S)] + [P(x) for x in a] + [done]):
        eng.cover(s)
        g = s.ghost
        eng.oblige(s, And(g['push'] == 1, g['done'] + g['call'] + g['mock'] == 1), 'handed-over-or-failed-exactly-once')
        eng.oblige(s, (g['waited'] == 1) == (done == 0), 'a-synchronous-call-waits')
        eng.oblige(s, eng.load(s, P(c.S, eng.off('o_wait')), ('i', 32)) == w0 + 1, 'one-call-more-outstanding')
        eng.oblige(s, Implies(mock == 0, (g['call'] == 1) == (resolved != 0)), 'handed-over-iff-the-address-is-known')


PROP.native('client', 'client.cc', args=['finish', '12'], thorough_args=['finish', '400'],
            what='real client against a scripted peer: answers, errors, silence, closed connections; every call completes exactly once', **F01.ALL)
