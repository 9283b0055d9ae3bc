"""V01: life of a server and of a client: started completely or not at all, stopped in an order that leaves nothing running, connections admitted within the limit and closed at the end."""
import re
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.cont import *
from vf.maps import *
from vf.smart import *
import props.F01 as F01
import props.L01 as L01
from props.L01 import impl, Ctx, add, If1, TUX, KIND

PROP = Prop('V01')
PROP.assumptions = ['shared_ptr and boost::function keep what they are given and call it', 'destroying a thread group, a pool or a listener stops it (their destructors do: proved for the listener)',
                    'ThreadGroupImpl::stop runs what was posted and joins its threads', 'MutexLock and FastLock provide mutual exclusion', 'std::set and std::map behave as finite sets and maps',
                    'one accept is outstanding per listener']
PROP.native('life', 'life.cc', args=['3'], thorough_args=['30'], what='real server and client started and stopped at awkward moments: during a maintenance run, after the listener failed, at a busy address, over and over', **F01.ALL)
PROP.native('limits', 'server.cc', args=['limits', '3'], thorough_args=['limits', '60'], what='real server with a connection limit: admitted up to the limit and no further, closed by Stop, started again', **F01.ALL)

SRV = dict(KIND['server'])
SRV['extra'] += '''
OFF(o_mt, I, _maintain_thread_group) OFF(o_io, I, _io_service_pool) OFF(o_tw, I, _timer_worker) OFF(o_ss, I, _start_stop_lock) OFF(o_eh, I, _event_handler) OFF(o_addr, I, _server_address) OFF(o_ep, I, _listen_endpoint)
OFF(o_sp, I, _service_pool) OFF(o_ws, I, _web_service) OFF(p_wtn, RpcServerOptions, work_thread_num) OFF(p_ios, RpcServerOptions, io_service_pool_size) OFF(p_init, RpcServerOptions, work_thread_init_func) OFF(p_dest, RpcServerOptions, work_thread_dest_func)
OFF(p_wf, RpcServerOptions, write_buffer_base_block_factor) OFF(p_rf, RpcServerOptions, read_buffer_base_block_factor) OFF(p_nd, RpcServerOptions, no_delay) OFF(p_bi, RpcServerOptions, disable_builtin_services)

typedef RpcServerMessageStream<SendResponseCallback> SM;
extern "C" const unsigned long SZ_ST = sizeof(RpcServerStream);
OFF(s_rf, RpcByteStream, _read_buffer_base_block_factor) OFF(s_wf, RpcByteStream, _write_buffer_base_block_factor) OFF(s_nd, RpcByteStream, _no_delay) OFF(s_ticks, RpcByteStream, _ticks) OFF(s_lrw, RpcByteStream, _last_rw_ticks) OFF(s_pb, SM, _max_pending_buffer_size) OFF(s_fc, SM, _flow_controller)
OFF(s_rcb, RpcServerStream, _received_request_callback) OFF(s_ccb, RpcServerStream, _closed_stream_callback)
extern "C" void vf_acc(I* i, const RpcServerStreamPtr& s) { i->OnCreated(s); i->OnAccepted(s); i->OnClosed(s); }
extern "C" const unsigned long K_MAXF = SOFA_PBRPC_TRAN_BUF_BLOCK_MAX_FACTOR, E_MANY = RPC_ERROR_TOO_MANY_OPEN_FILES, E_UNKNOWN = RPC_ERROR_UNKNOWN;
'''
CLI = dict(KIND['client'])
CLI['extra'] += '''
OFF(o_mt, I, _maintain_thread_group) OFF(o_cb, I, _callback_thread_group) OFF(o_wk, I, _work_thread_group) OFF(o_tw, I, _timer_worker) OFF(o_tm, I, _timeout_manager) OFF(o_ss, I, _start_stop_lock)
OFF(p_wtn, RpcClientOptions, work_thread_num) OFF(p_ctn, RpcClientOptions, callback_thread_num)
'''
PROP.tu('server', TUX % SRV)
PROP.tu('client', TUX % CLI)
Z8, O8 = BV(0, 8), BV(1, 8)
one = lambda b: If1(b, BV(1, 8), BV(0, 8))
tru = lambda b: b if z3.is_bool(b) else b != 0
SP = r'^((void|bool) )?(sofa::pbrpc|boost|std)::shared_ptr<.*>::'


def life(eng, kind):
    """ghost state of the parts of a server or client: m_ made, s_ started, e_ ended; `gone` checks what may be released when"""
    c, st = impl(eng, kind)
    C = eng.contract
    g = st.ghost
    c.parts = ['fc', 'mt', 'io', 'li', 'tw'] if c.server else ['fc', 'mt', 'cb', 'wk', 'tw', 'tm']
    c.off = {p: eng.off({'li': 'o_lis'}.get(p, 'o_' + p)) for p in c.parts}
    c.obj = {p: eng.new_obj(st, 'part_' + p, 'cells', size=4096) for p in c.parts}
    for p in c.parts:
        g['s_' + p] = g['e_' + p] = Z8
    g.update({'ss': c64(0), 'swept': Z8, 'cleared': Z8, 'cbs': frozenset(), 'dur': FALSE})
    c.running = lambda s: c.ld(s, 'o_run', 8) != 0

    def islock(p):
        return isinstance(p, P) and p.obj is c.S and p.off == eng.off('o_ss')

    def lock(e, s, a, n):
        if islock(a[0]):
            e.oblige(s, s.ghost['ss'] == 0, 'takes-a-free-lock')
            e.setghost(s, 'ss', c64(1))
        if isinstance(a[0], P) and a[0].obj is c.S and a[0].off == eng.off('o_lock'):
            e.oblige(s, s.ghost['locked'] == 0, 'takes-a-free-lock')
            e.setghost(s, 'locked', c64(1))
            s.ghost['atlock'] = c.maps.get(s, c.mapp)
        return BV(0, 32)

    def unlock(e, s, a, n):
        if islock(a[0]):
            e.oblige(s, s.ghost['ss'] == 1, 'releases-what-it-took')
            e.setghost(s, 'ss', c64(0))
        if isinstance(a[0], P) and a[0].obj is c.S and a[0].off == eng.off('o_lock'):
            e.oblige(s, s.ghost['locked'] == 1, 'releases-what-it-took')
            e.setghost(s, 'locked', c64(0))
        return BV(0, 32)

    def trylock(e, s, a, n):
        s2 = s.copy()
        lock(e, s, a, n)
        as_int = 'pthread' in e.demangled(n)
        s2.ghost['busy'] = True
        return [(s, BV(0, 32) if as_int else TRUE), (s2, BV(16, 32) if as_int else FALSE)]
    C(r'^(int )?pthread_(spin|mutex)_lock|^sofa::pbrpc::(SpinLock|MutexLock)::lock\(', lock)
    C(r'^(int )?pthread_(spin|mutex)_unlock|^sofa::pbrpc::(SpinLock|MutexLock)::unlock\(', unlock)
    C(r'^(int )?pthread_(spin|mutex)_trylock|^sofa::pbrpc::(SpinLock|MutexLock)::try_lock\(', trylock)

    def which(s, p):
        """the part that is held at a field of the object"""
        if isinstance(p, P) and p.obj is c.S:
            for k, o in c.off.items():
                if p.off == o:
                    return k
    c.which = which

    def part(s, w):
        """the part an object is"""
        if isinstance(w, P):
            for k, o in s.ghost.get('made', c.obj).items():
                if w.obj is o:
                    return k
    c.part = part
    c.gone = lambda e, s, k: None

    def held(e, s, p):
        v = e.load(s, p, ('ptr',))
        return not (not isinstance(v, P) and z3.is_bv_value(z3.simplify(v)) and z3.simplify(v).as_long() == 0)

    def let_go(e, s, p):
        k = which(s, p)
        if k and held(e, s, p):
            c.gone(e, s, k)

    def zero(e, s, a, n):
        let_go(e, s, a[0])
        e.store(s, a[0], ('ptr',), c64(0))

    def copy(e, s, a, n):
        let_go(e, s, a[0])
        e.store(s, a[0], ('ptr',), e.load(s, a[1], ('ptr',)))
        return a[0]

    def setp(e, s, a, n):
        let_go(e, s, a[0])
        e.store(s, a[0], ('ptr',), a[1])
    C(SP + r'operator=(<.*>)?\(', copy)
    C(SP + r'reset\(\)', zero)
    C(SP + r'reset<.*>\([\w:]+\*\)', setp)
    # callbacks: remember which member function was bound
    c.bound = {}

    def bind(e, s, a, n):
        fn = [str(x.name) for x in a if isinstance(x, FnP)]
        for x in a:
            if isinstance(x, Agg):
                fn += [str(y.name) for y in x.vals if isinstance(y, FnP)]
        s.ghost['cbs'] = s.ghost['cbs'] | {(a[0].obj.id if isinstance(a[0], P) else None, f) for f in fn}
        s.ghost['lastbind'] = fn
    C(r'^(boost::_bi::.* |.* )?boost::bind<', bind)
    return c, st


def cb_of(s, p):
    if isinstance(p, P):
        for o, f in s.ghost['cbs']:
            if o == p.obj.id:
                return f
    return None


def log(e, s, k, b=TRUE):
    e.setghost(s, k, z3.simplify(s.ghost[k] + one(b)))


def isrec(c, s, p, k):
    """the part k that is held now"""
    v = c.cur(s, k)
    return ptr_term(p) == ptr_term(v)


def server(eng):
    """contracts of the parts of a server"""
    c, st = life(eng, 'server')
    C = eng.contract
    g = st.ghost
    g.update({'k_create': None, 'k_accept': None, 'k_fail': None, 'init': FALSE, 'listening': FALSE, 'up': (), 'bi': Z8, 'okall': TRUE})
    c.cur = lambda s, k: eng.load(s, P(c.S, c.off[k]), ('ptr',))
    o = lambda s, n, b=32: eng.load(s, P(c.S, eng.off('o_opt') + eng.off(n)), ('i', b))
    c.o = o
    sc = lambda s: None
    qi, qo = c.ld(st, 'o_qi'), c.ld(st, 'o_qo')
    g['made'] = {}

    def made(k):
        def h(e, s, a, n):
            s.ghost['made'] = dict(s.ghost['made'], **{k: a[0].obj})
            e.setghost(s, 's_' + k, Z8)
            e.setghost(s, 'e_' + k, Z8)
        return h
    C(FC_CTOR, lambda e, s, a, n: (made('fc')(e, s, a, n), e.oblige(s, And(tru(a[1]) == (qi == -1), a[2] == qi, tru(a[3]) == (qo == -1), a[4] == qo), 'quota-is-given-by-the-limits'))[0])
    C(r'^sofa::pbrpc::ThreadGroupImpl::ThreadGroupImpl\(', made('mt'))
    C(r'^sofa::pbrpc::IOServicePool::IOServicePool\(', lambda e, s, a, n: (made('io')(e, s, a, n), e.oblige(s, And(a[1] == o(s, 'p_ios', 64), a[2] == z3.SignExt(32, o(s, 'p_wtn')) if a[2].size() == 64 else a[2] == o(s, 'p_wtn')), 'as-many-threads-as-asked-for'))[0])

    def li_ctor(e, s, a, n):
        made('li')(e, s, a, n)
        e.oblige(s, z3.BoolVal(isinstance(a[1], P) and a[1].obj is c.S and a[1].off == c.off['io'] and isinstance(a[2], P) and a[2].obj is c.S and a[2].off == eng.off('o_ep')), 'listens-at-the-resolved-address')
        for k in ('k_create', 'k_accept', 'k_fail'):
            s.ghost[k] = None
        e.setghost(s, 'listening', FALSE)
    C(r'^sofa::pbrpc::RpcListener::RpcListener\(', li_ctor)
    C(r'^sofa::pbrpc::TimerWorker::TimerWorker\(', made('tw'))

    def start(k, name):
        def h(e, s, a, n):
            e.oblige(s, isrec(c, s, a[0], k), 'starts-its-own-' + name)
            r = fresh('started', 1)
            log(e, s, 's_' + k)
            e.setghost(s, 'okall', And(s.ghost['okall'], r))
            if k == 'io':
                e.oblige(s, s.ghost['init'], 'threads-get-their-init-and-exit-functions-first')
            if k == 'li':
                gg = s.ghost
                for kk, m in (('k_create', 'OnCreated'), ('k_accept', 'OnAccepted'), ('k_fail', 'OnAcceptFailed')):
                    e.oblige(s, z3.BoolVal(bool(gg[kk] and m + 'E' in gg[kk])), 'the-listener-reports-to-the-server')
                e.oblige(s, And(gg['s_io'] == 1, gg['e_io'] == 0, nz_(c.cur(s, 'fc'))), 'listens-when-connections-can-be-served')
                e.setghost(s, 'listening', r)
            return r
        return h
    C(r'^sofa::pbrpc::ThreadGroupImpl::start\(', start('mt', 'threads'))
    C(r'^sofa::pbrpc::IOServicePool::Run\(', start('io', 'threads'))
    C(r'^sofa::pbrpc::RpcListener::start_listen\(', start('li', 'listener'))
    C(r'^sofa::pbrpc::IOServicePool::set_init_func', lambda e, s, a, n: s.ghost.update({'i1': ptr_term(a[1]) == ptr_term(e.load(s, P(c.S, e.off('o_opt') + e.off('p_init')), ('ptr',))), 'init': s.ghost.get('i2', FALSE)}))
    C(r'^sofa::pbrpc::IOServicePool::set_dest_func', lambda e, s, a, n: s.ghost.update({'i2': ptr_term(a[1]) == ptr_term(e.load(s, P(c.S, e.off('o_opt') + e.off('p_dest')), ('ptr',)))}))

    def setinit(k, n_):
        def h(e, s, a, n):
            s.ghost[k] = ptr_term(a[1]) == ptr_term(e.load(s, P(c.S, e.off('o_opt') + e.off(n_)), ('ptr',)))
            s.ghost['init'] = And(s.ghost.get('i1', FALSE), s.ghost.get('i2', FALSE))
        return h
    C(r'^sofa::pbrpc::IOServicePool::set_init_func', setinit('i1', 'p_init'))
    C(r'^sofa::pbrpc::IOServicePool::set_dest_func', setinit('i2', 'p_dest'))
    C(r'^sofa::pbrpc::IOServicePool::GetIOService', lambda e, s, a, n: fresh('ios', 64))
    C(r'^sofa::pbrpc::ThreadGroupImpl::io_service\(', lambda e, s, a, n: (e.oblige(s, isrec(c, s, a[0], 'mt'), 'the-clock-runs-on-the-maintenance-thread'), fresh('ios', 64))[1])

    def resolve(e, s, a, n):
        e.oblige(s, z3.BoolVal(isinstance(a[2], P) and a[2].obj is c.S and a[2].off == eng.off('o_ep')), 'resolves-the-address-to-listen-at')
        r = fresh('resolved', 1)
        e.setghost(s, 'okall', And(s.ghost['okall'], r))
        log(e, s, 's_res')
        return r
    g['s_res'] = Z8
    C(r'^sofa::pbrpc::ResolveAddress\(', resolve)
    for k, m in (('k_create', 'set_create_callback'), ('k_accept', 'set_accept_callback'), ('k_fail', 'set_accept_fail_callback')):
        C(r'^(void )?sofa::pbrpc::RpcListener::%s<' % m, lambda e, s, a, n, k=k: s.ghost.update({k: cb_of(s, a[1])}))

    def timer(e, s, a, n):
        gg = s.ghost
        e.oblige(s, isrec(c, s, a[0], 'tw'), 'starts-its-own-clock')
        e.oblige(s, And(gg['dur'], z3.BoolVal(bool(gg.get('k_tick') and 'TimerMaintain' in gg['k_tick']))), 'maintenance-runs-every-100-ms')
        e.oblige(s, And(*[nz_(c.cur(s, k)) for k in ('fc', 'li')]), 'maintenance-runs-when-everything-it-uses-is-there')
        log(e, s, 's_tw')
    C(r'^sofa::pbrpc::TimerWorker::start\(', timer)

    def dur(e, s, a, n):
        e.setghost(s, 'dur', (e.load(s, a[1], ('i', 64)) if isinstance(a[1], P) else a[1]) == 100000)
    C(r'^sofa::pbrpc::TimerWorker::set_time_duration', dur)

    def tick(e, s, a, n):
        s.ghost['k_tick'] = cb_of(s, a[1]) or next((f for f in s.ghost.get('lastbind', []) if 'TimerMaintain' in f), None)
    C(r'^sofa::pbrpc::TimerWorker::set_work_routine', tick)
    C(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(9)))
    C(r'^sofa::pbrpc::builtin::BuiltinServiceImpl::BuiltinServiceImpl', nop)
    C(r'^sofa::pbrpc::ServicePool::RegisterService', lambda e, s, a, n: (log(e, s, 'bi'), fresh('reg', 1))[1])

    def gone(e, s, k):
        gg = s.ghost
        v = c.cur(s, k)
        live = And(nz_(v), gg['s_' + k] != 0)
        c.release(e, s, k, live)
    c.gone = gone
    c.release = lambda e, s, k, live: None
    return c, st


def nz_(v):
    return ptr_term(v) != 0


FC_CTOR = r'^sofa::pbrpc::FlowController::FlowController\('


def cases(eng, c, st):
    """between calls: running with every part there, or stopped with none"""
    st.assume(z3.ULE(c.o(st, 'p_bi', 8), 1))
    for run in (1, 0):
        s0 = st.copy()
        eng.store(s0, P(c.S, eng.off('o_run')), ('i', 8), BV(run, 8))
        for k in c.parts:
            eng.store(s0, P(c.S, c.off[k]), ('ptr',), P(c.obj[k]) if run else c64(0))
            if run:
                s0.ghost['s_' + k] = O8
        s0.ghost['made'] = dict(c.obj) if run else {}
        s0.ghost['run0'] = run
        s0.ghost['first'] = {k: ptr_term(c.cur(s0, k)) for k in c.parts}
        yield s0


def complete(c, s):
    """the invariant again"""
    r = c.running(s)
    return And(*[nz_(c.cur(s, k)) == r for k in c.parts])


@PROP.job('start', 'server')
def j_start(eng):
    """a server starts completely or not at all, and says which"""
    c, st = server(eng)
    addr = eng.new_obj(st, 'addr', 'cells', size=32)
    set_str(eng, st, P(addr), ASym('address'), fresh('addrlen', 64))
    fn = eng.find(c.CLS + r'Start\(')
    for s0 in cases(eng, c, st):
        for s, r in eng.call(s0, fn, [P(c.S), P(addr)]):
            eng.cover(s)
            g = s.ghost
            r = tru(r)
            bi = c.o(s, 'p_bi', 8) != 0
            eng.oblige(s, g['ss'] == 0, 'the-lock-is-released')
            eng.oblige(s, r == c.running(s), 'says-whether-it-runs')
            eng.oblige(s, complete(c, s), 'a-running-server-is-complete-and-a-stopped-one-holds-nothing')
            if g['run0']:
                eng.oblige(s, And(r, *[g['s_' + k] == 1 for k in c.parts] + [ptr_term(c.cur(s, k)) == g['first'][k] for k in c.parts]), 'a-running-server-is-left-alone')
                continue
            eng.oblige(s, r == And(g['okall'], g['s_mt'] == 1, g['s_io'] == 1, g['s_li'] == 1, g['s_res'] == 1), 'runs-if-and-only-if-every-part-started')
            eng.oblige(s, Implies(r, And(g['s_tw'] == 1, g['listening'])), 'a-started-server-is-complete')
            eng.oblige(s, Implies(r, g['bi'] == one(Not(bi))), 'builtin-services-as-asked-for')
            eng.oblige(s, Implies(Not(r), g['s_tw'] == 0), 'a-failed-start-leaves-nothing-behind')


def ends(eng, c):
    """contracts of stopping the parts: nothing is released while somebody may use it"""
    C = eng.contract

    def stop(k):
        def h(e, s, a, n):
            g = s.ghost
            e.oblige(s, isrec(c, s, a[0], k), 'stops-its-own-parts')
            if k == 'mt':
                e.oblige(s, g['e_tw'] != 0, 'the-clock-stops-before-its-thread-is-waited-for')
            if k in ('mt', 'io', 'wk', 'cb'):
                e.oblige(s, g['locked'] == 0, 'no-thread-is-waited-for-with-the-table-locked')
                e.oblige(s, g['swept'] != 0, 'connections-are-closed-before-threads-are-waited-for')
            if k == 'io':
                e.oblige(s, g['e_li'] != 0, 'nothing-is-accepted-any-more-when-the-threads-are-waited-for')
            log(e, s, 'e_' + k)
        return h
    C(r'^sofa::pbrpc::IOServicePool::Stop\(', stop('io'))
    C(r'^sofa::pbrpc::RpcListener::close\(', stop('li'))
    C(r'^sofa::pbrpc::TimerWorker::stop\(', stop('tw'))
    C(r'^sofa::pbrpc::RpcTimeoutManager::stop\(', stop('tm'))

    def tg(e, s, a, n):
        for k in ('mt', 'wk', 'cb'):
            if k in c.parts and e.proved(s, isrec(c, s, a[0], k)):
                return stop(k)(e, s, a, n)
        e.oblige(s, FALSE, 'stops-its-own-parts')
    C(r'^sofa::pbrpc::ThreadGroupImpl::stop\(', tg)

    def sweep(e, s, a, n):
        e.oblige(s, Not(c.running(s)), 'no-connection-is-admitted-after-the-others-were-closed')
        e.oblige(s, s.ghost['locked'] == 0, 'takes-a-free-lock')
        log(e, s, 'swept')
    C(c.CLS + r'StopStreams\(', sweep, trusted=False)

    def clear(e, s, a, n):
        e.oblige(s, And(Not(c.running(s)), s.ghost['swept'] != 0), 'connections-are-closed-before-they-are-forgotten')
        log(e, s, 'cleared')
    C(c.CLS + r'ClearStreams\(', clear, trusted=False)

    def release(e, s, k, live):
        g = s.ghost
        if g.get('starting'):
            return
        e.oblige(s, Implies(live, And(*[g['e_' + x] != 0 for x in ([] if k == 'fc' else [k])])), 'a-part-is-stopped-before-it-is-released')
        if c.server and k in ('fc', 'li', 'tw', 'io'):
            e.oblige(s, Implies(live, g['e_mt'] != 0), 'nothing-is-released-while-a-maintenance-run-may-use-it')
        if c.server and k == 'fc':
            e.oblige(s, Implies(live, g['e_io'] != 0), 'nothing-is-released-while-a-connection-may-be-accepted')
        if not c.server and k == 'fc':
            e.oblige(s, Implies(live, g['e_mt'] != 0), 'nothing-is-released-while-a-maintenance-run-may-use-it')
        if not c.server and k == 'tm':
            e.oblige(s, Implies(live, g['e_wk'] != 0), 'nothing-is-released-while-a-call-may-use-it')
    c.release = release


def stopping(eng, c, st):
    fn = eng.find(c.CLS + r'Stop\(')
    for s0 in cases(eng, c, st):
        for s, r in eng.call(s0, fn, [P(c.S)]):
            eng.cover(s)
            g = s.ghost
            eng.oblige(s, g['ss'] == 0, 'the-lock-is-released')
            eng.oblige(s, And(Not(c.running(s)), complete(c, s)), 'a-stopped-one-holds-nothing')
            w = g['run0']
            eng.oblige(s, And(*[g['e_' + k] == w for k in c.parts if k != 'fc']), 'every-part-is-stopped')
            eng.oblige(s, And(g['swept'] == w, g['cleared'] == w), 'every-connection-is-closed-and-forgotten')


@PROP.job('stop', 'server')
def j_stop(eng):
    """stopping ends every part, closes every connection and waits for whoever may still use what is released"""
    c, st = server(eng)
    ends(eng, c)
    stopping(eng, c, st)


# ---- the table of connections --------------------------------------------------------------------------------------------
def table(eng, kind, which):
    c, st = life(eng, kind)
    C = eng.contract
    g = st.ghost
    g.update({'clx': Z8, 'cly': Z8})
    W = (('x', c.SX), ('y', c.SY))

    def close(e, s, a, n):
        for w, sw in W:
            log(e, s, 'cl' + w, ptr_term(a[0]) == sw)
    C(r'^sofa::pbrpc::RpcByteStream::close\(', close)

    def extra(s, q, i, k):
        if not c.server:
            v = q.at(eng, s, i, 32, 8)
            s.assume(And(Implies(v == c.SX, k == c.X), Implies(v == c.SY, k == c.Y), v != 0))
        else:
            s.assume(k != 0)
    c.maps.extra = extra

    def inv(e, ctx):
        out = []
        g0 = ctx.st0.ghost
        for q in [g0[k][0] for k in g0 if isinstance(k, tuple) and k[0] == 'enum']:
            for nm_, get in loop_iters(e, ctx, q.obj):
                out.append(('in-range ' + nm_, lambda s, env, get=get, q=q: z3.ULE(get(s, env), q.len)))
                for (x, ix), w in zip(q.obj.watch, 'xy'):
                    pr = z3.Select(g0['atlock'].pres, x)
                    out.append(('closed-%s %s' % (w, nm_), lambda s, env, get=get, ix=ix, pr=pr, w=w: s.ghost['cl' + w] == one(And(pr, z3.ULT(ix, get(s, env))))))
        return out
    eng.loopspecs.append(('.', inv))
    for s, r in eng.call(st, eng.find(c.CLS + which + r'Streams\('), [P(c.S)]):
        eng.cover(s)
        g = s.ghost
        m1 = c.maps.get(s, c.mapp)
        eng.oblige(s, g['locked'] == 0, 'the-lock-is-released')
        for w, x in (('x', c.X), ('y', c.Y)):
            if which == 'Stop':
                eng.oblige(s, g['cl' + w] == one(z3.Select(g['atlock'].pres, x)), 'every-connection-is-closed')
            else:
                eng.oblige(s, Not(z3.Select(m1.pres, x)), 'every-connection-is-forgotten')


for _k in ('server', 'client'):
    for _w in ('Stop', 'Clear'):
        @PROP.job('%s-streams-%s' % (_w.lower(), _k), _k)
        def j_table(eng, k=_k, w=_w):
            table(eng, k, w)


# ---- one connection of a server ------------------------------------------------------------------------------------------
def conn(eng):
    c, st = life(eng, 'server')
    C = eng.contract
    g = st.ghost
    c.T = eng.new_obj(st, 'stream', 'cells', size=eng.off('SZ_ST'))
    c.tp = eng.new_obj(st, 'streamptr', 'cells', size=16)
    eng.store(st, P(c.tp), ('ptr',), P(c.T))
    eng.set_vptr(st, c.T, 'sofa::pbrpc::RpcServerStream')
    g.update({'closed': Z8})
    run0 = c.ld(st, 'o_run', 8)
    st.assume(z3.ULE(run0, 1))
    c.run0 = run0 == 1
    c.t = lambda s, n, b=64: eng.load(s, P(c.T, eng.off(n)), ('i', b))
    c.o = lambda s, n, b=32: eng.load(s, P(c.S, eng.off('o_opt') + eng.off(n)), ('i', b))

    def close(e, s, a, n):
        e.oblige(s, z3.BoolVal(isinstance(a[0], P) and a[0].obj is c.T), 'closes-this-connection')
        e.oblige(s, s.ghost['locked'] == 0, 'connections-are-closed-outside-the-lock')
        log(e, s, 'closed')
    C(r'^sofa::pbrpc::RpcByteStream::close\(', close)
    C(r'^.*boost::lexical_cast<std::.*string.*>\(', lambda e, s, a, n: set_str(e, s, a[0], ASym('num'), c64(2)))
    C(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(9)))
    T = ptr_term(P(c.T))
    st.assume(And(T != c.X, T != c.Y, T != 0))
    c.Tw = T
    c.size = z3.Function('mapsize', c.m0.pres.sort(), z3.BitVecSort(64))(c.m0.pres)
    st.assume(And(c.size >= 0, c.size < (1 << 31) - 1))
    return c, st


@PROP.job('accepted', 'server')
def j_accepted(eng):
    """a connection is admitted while the server runs and the limit is not reached, and then gets every setting; otherwise it is closed"""
    c, st = conn(eng)
    lim = c.o(st, 'p_mc')
    st.assume(Not(z3.Select(c.m0.pres, c.Tw)))
    st.assume(z3.ULE(c.o(st, 'p_nd', 8), 1))
    epoch, now = c.ld(st, 'o_epoch'), None
    rf, wf, K = c.o(st, 'p_rf', 64), c.o(st, 'p_wf', 64), eng.off('K_MAXF')
    for s, r in eng.call(st, eng.find(c.CLS + r'OnAccepted\('), [P(c.S), P(c.tp)]):
        eng.cover(s)
        g = s.ghost
        m1 = c.maps.get(s, c.mapp)
        admit = And(c.run0, Or(lim == -1, c.size < z3.SignExt(32, lim)))
        inn = z3.Select(m1.pres, c.Tw)
        eng.oblige(s, g['closed'] == one(Not(admit)), 'a-connection-over-the-limit-is-closed-and-no-other')
        eng.oblige(s, inn == admit, 'an-admitted-connection-is-entered-and-no-other')
        eng.oblige(s, And(z3.Select(m1.pres, c.X) == c.px, z3.Select(m1.pres, c.Y) == c.py), 'other-connections-stay')
        eng.oblige(s, g['locked'] == 0, 'the-lock-is-released')
        if not eng.proved(s, Not(admit)):
            eng.oblige(s, Implies(admit, c.t(s, 's_pb') == c.ld(s, 'o_mpb')), 'gets-the-buffer-limit')
            eng.oblige(s, Implies(admit, And(c.t(s, 's_rf') == If1(z3.ULT(rf, K), rf, c64(K)), c.t(s, 's_wf') == If1(z3.ULT(wf, K), wf, c64(K)))), 'gets-the-buffer-factors')
            eng.oblige(s, Implies(admit, c.t(s, 's_nd', 8) == c.o(st, 'p_nd', 8)), 'gets-the-delay-option')
            now = g['clock'][-1] if g.get('clock') else None
            eng.oblige(s, Implies(admit, And(c.t(s, 's_ticks') == now - epoch, c.t(s, 's_lrw') == now - epoch) if now is not None else FALSE), 'is-not-idle-when-it-arrives')


@PROP.job('created', 'server')
def j_created(eng):
    """a connection reports to the server that accepts it and pays from its quota"""
    c, st = conn(eng)
    F = eng.new_obj(st, 'fc', 'cells', size=64)
    eng.store(st, P(c.S, eng.off('o_fc')), ('ptr',), P(F))
    C = eng.contract

    def assign(k):
        def h(e, s, a, n):
            e.oblige(s, z3.BoolVal(isinstance(a[0], P) and a[0].obj is c.T), 'this-connection')
            s.ghost[k] = cb_of(s, a[1]) or s.ghost.get('fn%d' % a[1].obj.id)
        return h

    def conv(e, s, a, n):
        f = [cb_of(s, x) for x in a[1:] if isinstance(x, P)] + s.ghost.get('lastbind', [])
        f = [x for x in f if x]
        s.ghost['fn%d' % a[0].obj.id] = f[0] if f else None
    C(r'^boost::function<.*>::function<', conv)
    C(r'^sofa::pbrpc::RpcServerStream::set_received_request_callback', assign('k_req'))
    C(r'^sofa::pbrpc::RpcServerStream::set_closed_stream_callback', assign('k_closed'))
    for s, r in eng.call(st, eng.find(c.CLS + r'OnCreated\('), [P(c.S), P(c.tp)]):
        eng.cover(s)
        g = s.ghost
        eng.oblige(s, z3.BoolVal('OnReceived' in (g.get('k_req') or '') and 'OnClosed' in (g.get('k_closed') or '')), 'requests-and-the-end-are-reported-to-the-server')
        eng.oblige(s, ptr_term(eng.load(s, P(c.T, eng.off('s_fc')), ('ptr',))) == ptr_term(P(F)), 'pays-from-the-quota-of-the-server')


@PROP.job('closed', 'server')
def j_closed(eng):
    """a connection that ends leaves the table of a running server, and only it"""
    c, st = conn(eng)
    for s, r in eng.call(st.copy(), eng.find(c.CLS + r'OnClosed\('), [P(c.S), P(c.tp)]):
        eng.cover(s)
        m1 = c.maps.get(s, c.mapp)
        eng.oblige(s, Implies(c.run0, Not(z3.Select(m1.pres, c.Tw))), 'a-connection-that-ended-is-forgotten')
        eng.oblige(s, And(z3.Select(m1.pres, c.X) == c.px, z3.Select(m1.pres, c.Y) == c.py), 'other-connections-stay')
        eng.oblige(s, And(s.ghost['locked'] == 0, s.ghost['closed'] == 0), 'the-lock-is-released')
    for s, r in eng.call(st.copy(), eng.find(c.CLS + r'ConnectionCount\('), [P(c.S)]):
        eng.cover(s)
        eng.oblige(s, And(r == z3.Extract(31, 0, c.size) if r.size() == 32 else r == c.size, s.ghost['locked'] == 0), 'counts-the-connections')


@PROP.job('received', 'server')
def j_received(eng):
    """a running server processes every request it receives, once, with its own services; a stopped one none"""
    c, st = conn(eng)
    C = eng.contract
    g = st.ghost
    g['proc'] = Z8
    Q = eng.new_obj(st, 'request', 'cells', size=512)
    qp = eng.new_obj(st, 'requestptr', 'cells', size=16)
    eng.store(st, P(qp), ('ptr',), P(Q))
    eng.store(st, P(Q), ('ptr',), P(eng.new_obj(st, 'qvt', 'cells', size=256)))

    def virtual(e, s, fp, a, d):
        if isinstance(a[0], P) and a[0].obj is Q:
            if len(a) >= 3:
                e.oblige(s, z3.BoolVal(isinstance(a[1], P)), 'with-its-connection')
                e.oblige(s, ptr_term(e.load(s, a[1], ('ptr',))) == c.Tw, 'with-its-connection')
                e.oblige(s, ptr_term(e.load(s, a[2], ('ptr',))) == ptr_term(e.load(s, P(c.S, eng.off('o_sp')), ('ptr',))), 'with-the-services-of-the-server')
                log(e, s, 'proc')
            return [(s, None)]
    eng.indirect = virtual
    for s, r in eng.call(st, eng.find(c.CLS + r'OnReceived\('), [P(c.S), P(c.tp), P(qp)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['proc'] == one(c.run0), 'a-request-is-processed-once-while-the-server-runs')


@PROP.job('accept-failed', 'server')
def j_accfail(eng):
    c, st = conn(eng)
    C = eng.contract
    g = st.ghost
    g['told'] = Z8
    E = eng.new_obj(st, 'handler', 'cells', size=64)
    eng.store(st, P(E), ('ptr',), P(eng.new_obj(st, 'ehvt', 'cells', size=64)))
    st2 = st.copy()
    eng.store(st, P(c.S, eng.off('o_eh')), ('ptr',), P(E))
    eng.store(st2, P(c.S, eng.off('o_eh')), ('ptr',), c64(0))
    code = fresh('code', 32)
    t = eng.new_obj(st, 'text', 'cells', size=32)

    def virtual(e, s, fp, a, d):
        e.oblige(s, And(z3.BoolVal(isinstance(a[0], P) and a[0].obj is E), a[1] == code, z3.BoolVal(isinstance(a[2], P) and a[2].obj is t)), 'told-what-happened')
        log(e, s, 'told')
        return [(s, None)]
    eng.indirect = virtual
    fn = eng.find(c.CLS + r'OnAcceptFailed\(')
    for s, r, has in [x + (1,) for x in eng.call(st, fn, [P(c.S), code, P(t)])] + [x + (0,) for x in eng.call(st2, fn, [P(c.S), code, P(t)])]:
        eng.cover(s)
        eng.oblige(s, s.ghost['told'] == one(And(c.run0, z3.BoolVal(bool(has)))), 'the-owner-of-a-running-server-hears-of-a-failed-accept')


@PROP.job('restart-listen', 'server')
def j_restart(eng):
    """a failed listener is replaced by a new one at the same address that reports to the server; the maintenance run never waits for the lock of Stop"""
    c, st = server(eng)
    C = eng.contract
    g = st.ghost

    def close(e, s, a, n):
        e.oblige(s, isrec(c, s, a[0], 'li'), 'the-old-listener')
        e.setghost(s, 'oldclosed', True)
        log(e, s, 'e_li')
    g['oldclosed'] = False
    C(r'^sofa::pbrpc::RpcListener::close\(', close)

    def nowait(e, s, a, n):
        if isinstance(a[0], P) and a[0].obj is c.S and a[0].off == eng.off('o_ss'):
            e.oblige(s, FALSE, 'does-not-wait-for-a-lock-whose-holder-waits-for-this-thread')
        return BV(0, 32)
    C(r'^(int )?pthread_mutex_lock|^sofa::pbrpc::MutexLock::lock\(', nowait)

    def release(e, s, k, live):
        e.oblige(s, Implies(live, And(z3.BoolVal(k == 'li'), s.ghost['e_li'] == 1)), 'only-a-closed-listener-is-replaced')
    c.release = release
    fn = eng.find(c.CLS + r'RestartListen\(')
    for s0 in cases(eng, c, st):
        for s, r in eng.call(s0, fn, [P(c.S)]):
            eng.cover(s)
            g = s.ghost
            r = tru(r)
            eng.oblige(s, g['ss'] == 0, 'the-lock-is-released')
            eng.oblige(s, And(c.running(s) == bool(g['run0']), complete(c, s)), 'runs-as-before')
            if g.get('busy') or not g['run0']:
                eng.oblige(s, And(Not(r), g['e_li'] == 0, *[ptr_term(c.cur(s, k)) == g['first'][k] for k in c.parts]), 'a-server-that-is-being-started-or-stopped-is-left-alone')
            else:
                eng.oblige(s, And(r == g['listening'], z3.BoolVal(g['oldclosed'])), 'listens-again-or-says-not')
                eng.oblige(s, z3.BoolVal(c.part(s, c.cur(s, 'li')) == 'li' and 'li' in g['made'] and g['made']['li'] is not c.obj['li']), 'a-new-listener')


# ---- the listener --------------------------------------------------------------------------------------------------------
PROP.tu('listener', '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/rpc_server_stream.h>
#include <sofa/pbrpc/rpc_listener.h>
using namespace sofa::pbrpc;
extern "C" void vf_use(RpcListener* l, const RpcServerStreamPtr& s, const boost::system::error_code& e) { l->start_listen(); l->async_accept(); l->on_accept(s, e); l->close(); l->is_closed(); l->~RpcListener(); }
extern "C" int vf_ec(const boost::system::error_code* e) { return *e == boost::asio::error::no_descriptors; }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_closed, RpcListener, _is_closed) OFF(o_lock, RpcListener, _close_lock) OFF(o_acc, RpcListener, _acceptor) OFF(o_c, RpcListener, _create_callback) OFF(o_a, RpcListener, _accept_callback) OFF(o_f, RpcListener, _accept_fail_callback) OFF(o_ep, RpcListener, _endpoint)
extern "C" const unsigned long SZ = sizeof(RpcListener), E_MANY = RPC_ERROR_TOO_MANY_OPEN_FILES, E_UNKNOWN = RPC_ERROR_UNKNOWN, K_EMFILE = boost::asio::error::no_descriptors;
''')
LI = r'^sofa::pbrpc::RpcListener::'


def listener(eng):
    c, st = Ctx(), State()
    c.L = eng.new_obj(st, 'listener', 'cells', size=eng.off('SZ'))
    smart(eng)
    C = eng.contract
    iop, pool = eng.new_obj(st, 'poolptr', 'cells', size=16), eng.new_obj(st, 'pool', 'cells', size=64)
    eng.store(st, P(iop), ('ptr',), P(pool))
    eng.store(st, P(c.L, eng.off('o_ep') - 8), ('ptr',), P(iop))
    g = st.ghost
    g.update({'lock': c64(0), 'acc_open': Z8, 'acc_close': Z8, 'asyncs': Z8, 'created': Z8, 'acb': Z8, 'fcb': Z8, 'ok': TRUE, 'sclosed': FALSE, 'conn': Z8, 'upd': Z8, 'steps': Z8})
    c.closed = lambda s: eng.load(s, P(c.L, eng.off('o_closed')), ('i', 8)) != 0
    st.assume(z3.ULE(eng.load(st, P(c.L, eng.off('o_closed')), ('i', 8)), 1))
    mine = lambda p, o: isinstance(p, P) and p.obj is c.L and p.off == eng.off(o)
    C(r'^(int )?pthread_mutex_lock|^sofa::pbrpc::MutexLock::lock\(', lambda e, s, a, n: (e.oblige(s, s.ghost['lock'] == 0, 'takes-a-free-lock'), e.setghost(s, 'lock', c64(1)), BV(0, 32))[2])
    C(r'^(int )?pthread_mutex_unlock|^sofa::pbrpc::MutexLock::unlock\(', lambda e, s, a, n: (e.setghost(s, 'lock', c64(0)), BV(0, 32))[1])
    AC = r'.*boost::asio::(basic_socket_acceptor|basic_io_object)<.*>::'

    def ec_set(e, s, p):
        r = fresh('ok', 1)
        e.setghost(s, 'ok', And(s.ghost['ok'], r))
        s.ghost['ec%d' % p.obj.id] = Not(r)
        log(e, s, 'steps')
    for f in ('open', 'set_option<', 'bind', 'listen'):
        C(AC + f, lambda e, s, a, n, f=f: (ec_set(e, s, a[-1]), (e.oblige(s, z3.BoolVal(mine(a[-2], 'o_ep')), 'listens-at-its-address') if f == 'bind' else None), None)[2])
    C(r'^boost::system::error_code::error_code\(\)', lambda e, s, a, n: s.ghost.update({'ec%d' % a[0].obj.id: FALSE}))
    C(r'^boost::system::error_code::(operator bool|operator .*\(\) const)', lambda e, s, a, n: s.ghost.setdefault('ec%d' % a[0].obj.id, fresh('ec', 1)) if 'bool' in e.demangled(n) else Agg([z3.If(s.ghost.setdefault('ec%d' % a[0].obj.id, fresh('ec', 1)), c64(1), c64(0)), c64(0)]))
    C(r'^boost::system::error_code::message', lambda e, s, a, n: set_str(e, s, a[0], ASym('msg'), c64(3)))
    C(AC + r'native', lambda e, s, a, n: fresh('fd', 32))
    C(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(9)))

    def fcntl(e, s, a, n):
        r = fresh('fcntl', 32)
        s.ghost['lastfc'] = r
        return r
    C(r'^fcntl(64)?$', fcntl)
    C(r'^__errno_location', lambda e, s, a, n: P(e.new_obj(s, 'errno', 'cells', size=4)))
    C(r'^strerror', lambda e, s, a, n: fresh('strerr', 64))
    C(AC + r'cancel', nop)

    def aclose(e, s, a, n):
        e.oblige(s, c.closed(s), 'known-to-be-closed-before-it-is')
        log(e, s, 'acc_close')
    C(AC + r'close', aclose)

    def aaccept(e, s, a, n):
        e.oblige(s, z3.BoolVal(mine(a[0], 'o_acc')), 'on-its-own-socket')
        e.oblige(s, Implies(s.ghost['hascb'].get('o_c', TRUE), s.ghost['created'] == s.ghost['asyncs'] + 1), 'a-connection-is-prepared-before-it-can-arrive')
        log(e, s, 'asyncs')
    C(AC + r'async_accept', aaccept)
    g['hascb'] = {}

    def hascb(e, s, a, n):
        k = next((x for x in ('o_c', 'o_a', 'o_f') if mine(a[0], x)), None)
        if k is None:
            raise Unsupported('callback')
        r = s.ghost['hascb'].get(k)
        if r is None:
            r = fresh('has' + k, 1)
            s.ghost['hascb'] = dict(s.ghost['hascb'], **{k: r})
        d = e.demangled(n)
        return z3.If(r, FALSE, TRUE) if 'empty' in d else (r if 'operator bool' in d else Agg([z3.If(r, c64(1), c64(0)), c64(0)]))
    C(r'^boost::(function\d?|function_base)<?.*>?::(operator bool|operator .*\(\) const|empty)', hascb)

    def cb(e, s, a, n):
        if mine(a[0], 'o_c'):
            log(e, s, 'created')
        elif mine(a[0], 'o_a'):
            e.oblige(s, And(s.ghost['conn'] == 0, s.ghost['upd'] == 1), 'admitted-before-it-is-served')
            log(e, s, 'acb')
            e.setghost(s, 'sclosed', Or(s.ghost['sclosed'], fresh('refused', 1)))
        elif mine(a[0], 'o_f'):
            s.ghost['fcode'] = a[1]
            e.oblige(s, And(c.closed(s), s.ghost['lock'] == 0), 'told-when-the-listener-is-closed')
            log(e, s, 'fcb')
        else:
            raise Unsupported('callback')
    C(r'^boost::function[12]<.*>::operator\(\)\(', cb)
    C(r'^sofa::pbrpc::RpcServerStream::RpcServerStream', nop)
    C(r'^sofa::pbrpc::IOServicePool::GetIOService', lambda e, s, a, n: fresh('ios', 64))
    c.T = eng.new_obj(st, 'stream', 'cells', size=4096)
    c.tp = eng.new_obj(st, 'streamptr', 'cells', size=16)
    eng.store(st, P(c.tp), ('ptr',), P(c.T))
    B = r'^sofa::pbrpc::RpcByteStream::'
    C(B + r'socket\(', lambda e, s, a, n: fresh('socket', 64))

    def upd(e, s, a, n):
        log(e, s, 'upd')
        e.setghost(s, 'sclosed', Or(s.ghost['sclosed'], fresh('nopeer', 1)))
    C(B + r'update_remote_endpoint', upd)
    C(B + r'is_closed', lambda e, s, a, n: s.ghost['sclosed'])

    def setconn(e, s, a, n):
        e.oblige(s, Not(s.ghost['sclosed']), 'a-refused-connection-is-not-served')
        log(e, s, 'conn')
    C(B + r'set_socket_connected', setconn)
    C(B + r'remote_endpoint', lambda e, s, a, n: fresh('ep', 64))
    return c, st


@PROP.job('listen', 'listener')
def j_listen(eng):
    """listening starts if and only if every step succeeded, with one accept under way"""
    c, st = listener(eng)
    st.assume(c.closed(st))
    for s, r in eng.call(st, eng.find(LI + r'start_listen\('), [P(c.L)]):
        eng.cover(s)
        g = s.ghost
        r = tru(r)
        fd = g.get('lastfc')
        eng.oblige(s, r == And(g['ok'], g['steps'] == 4, (fd >= 0) if fd is not None else FALSE), 'listens-if-and-only-if-every-step-succeeded')
        eng.oblige(s, And(r == Not(c.closed(s)), g['asyncs'] == one(r)), 'one-accept-is-under-way-while-listening')
        eng.oblige(s, g['lock'] == 0, 'the-lock-is-released')


@PROP.job('on-accept', 'listener')
def j_on_accept(eng):
    """every connection is offered to the server before it is served, and the next is awaited; a failure closes the listener and is reported once"""
    c, st = listener(eng)
    g = st.ghost
    cl0 = c.closed(st)
    ec = eng.new_obj(st, 'ec', 'cells', size=16)
    bad = fresh('failed', 1)
    many = fresh('toomany', 1)
    st.assume(Implies(many, bad))
    g['ec%d' % ec.id] = bad
    eng.contract(r'^.*boost::system::operator(==|!=)', lambda e, s, a, n: many if '==' in e.demangled(n) else Not(many))
    eng.contract(r'.*boost::asio::error::make_error_code', lambda e, s, a, n: nop(e, s, a, n))
    for s, r in eng.call(st, eng.find(LI + r'on_accept\('), [P(c.L), P(c.tp), P(ec)]):
        eng.cover(s)
        g = s.ghost
        h = lambda k: g['hascb'].get(k, TRUE)
        eng.oblige(s, Implies(cl0, And(g['asyncs'] == 0, g['acb'] == 0, g['fcb'] == 0, g['conn'] == 0)), 'a-closed-listener-does-nothing')
        eng.oblige(s, Implies(And(Not(cl0), bad), And(c.closed(s), g['acc_close'] == 1, g['asyncs'] == 0, g['conn'] == 0, g['fcb'] == one(h('o_f')))), 'a-failure-closes-the-listener-and-is-reported-once')
        if 'fcode' in g:
            eng.oblige(s, g['fcode'] == If1(many, BV(eng.off('E_MANY'), 32), BV(eng.off('E_UNKNOWN'), 32)), 'the-reason-is-reported')
        good = And(Not(cl0), Not(bad))
        eng.oblige(s, Implies(good, And(g['asyncs'] == 1, Not(c.closed(s)), g['fcb'] == 0)), 'the-next-connection-is-awaited')
        eng.oblige(s, Implies(And(good, Not(g['sclosed'])), And(g['conn'] == 1, g['acb'] == one(h('o_a')))), 'an-admitted-connection-is-served')
        eng.oblige(s, g['lock'] == 0, 'the-lock-is-released')


@PROP.job('listener-close', 'listener')
def j_lclose(eng):
    c, st = listener(eng)
    cl0 = c.closed(st)
    for s, r in eng.call(st.copy(), eng.find(LI + r'close\('), [P(c.L)]):
        eng.cover(s)
        eng.oblige(s, And(c.closed(s), s.ghost['acc_close'] == one(Not(cl0)), s.ghost['lock'] == 0), 'a-listener-is-closed-once')
    for s, r in eng.call(st.copy(), eng.find(LI + r'is_closed\('), [P(c.L)]):
        eng.cover(s)
        eng.oblige(s, And(tru(r) == cl0, s.ghost['lock'] == 0), 'knows-whether-it-is-closed')


# ---- the client ----------------------------------------------------------------------------------------------------------
def client(eng):
    c, st = life(eng, 'client')
    C = eng.contract
    g = st.ghost
    c.cur = lambda s, k: eng.load(s, P(c.S, c.off[k]), ('ptr',))
    c.o = lambda s, n, b=32: eng.load(s, P(c.S, eng.off('o_opt') + eng.off(n)), ('i', b))
    qi, qo = c.ld(st, 'o_qi'), c.ld(st, 'o_qo')
    g['made'] = {}
    g['threads'] = {}

    def made(k):
        def h(e, s, a, n):
            s.ghost['made'] = dict(s.ghost['made'], **{k: a[0].obj})
        return h
    C(FC_CTOR, lambda e, s, a, n: (made('fc')(e, s, a, n), e.oblige(s, And(tru(a[1]) == (qi == -1), a[2] == qi, tru(a[3]) == (qo == -1), a[4] == qo), 'quota-is-given-by-the-limits'))[0])

    def tgctor(e, s, a, n):
        s.ghost['threads'] = {**s.ghost['threads'], a[0].obj.id: a[1]}
    C(r'^sofa::pbrpc::ThreadGroupImpl::ThreadGroupImpl\(', tgctor)
    C(r'^sofa::pbrpc::TimerWorker::TimerWorker\(', made('tw'))
    C(r'^sofa::pbrpc::RpcTimeoutManager::RpcTimeoutManager\(', made('tm'))

    def start(e, s, a, n):
        for k in ('mt', 'wk', 'cb'):
            if e.proved(s, isrec(c, s, a[0], k)):
                if k != 'mt':
                    nt = s.ghost['threads'].get(a[0].obj.id) if isinstance(a[0], P) else None
                    e.oblige(s, (nt == c.o(s, {'wk': 'p_wtn', 'cb': 'p_ctn'}[k])) if nt is not None else FALSE, 'as-many-threads-as-asked-for')
                log(e, s, 's_' + k)
                return fresh('started', 1)
        e.oblige(s, FALSE, 'starts-its-own-threads')
        return fresh('started', 1)
    C(r'^sofa::pbrpc::ThreadGroupImpl::start\(', start)
    C(r'^sofa::pbrpc::ThreadGroupImpl::io_service\(', lambda e, s, a, n: (e.oblige(s, isrec(c, s, a[0], 'mt'), 'clocks-run-on-the-maintenance-threads'), fresh('ios', 64))[1])

    def timer(e, s, a, n):
        gg = s.ghost
        e.oblige(s, isrec(c, s, a[0], 'tw'), 'starts-its-own-clock')
        e.oblige(s, And(gg['dur'], z3.BoolVal(bool(gg.get('k_tick') and 'TimerMaintain' in gg['k_tick']))), 'maintenance-runs-every-100-ms')
        e.oblige(s, nz_(c.cur(s, 'fc')), 'maintenance-runs-when-everything-it-uses-is-there')
        log(e, s, 's_tw')
    C(r'^sofa::pbrpc::TimerWorker::start\(', timer)
    C(r'^sofa::pbrpc::TimerWorker::set_time_duration', lambda e, s, a, n: e.setghost(s, 'dur', (e.load(s, a[1], ('i', 64)) if isinstance(a[1], P) else a[1]) == 100000))

    def tick(e, s, a, n):
        s.ghost['k_tick'] = cb_of(s, a[1]) or next((f for f in s.ghost.get('lastbind', []) if 'TimerMaintain' in f), None)
    C(r'^sofa::pbrpc::TimerWorker::set_work_routine', tick)

    def tmstart(e, s, a, n):
        e.oblige(s, isrec(c, s, a[0], 'tm'), 'starts-its-own-timeouts')
        log(e, s, 's_tm')
        return fresh('started', 1)
    C(r'^sofa::pbrpc::RpcTimeoutManager::start\(', tmstart)

    def gone(e, s, k):
        c.release(e, s, k, And(nz_(c.cur(s, k)), s.ghost['s_' + k] != 0))
    c.gone = gone
    c.release = lambda e, s, k, live: None
    return c, st


def cli_cases(eng, c, st):
    for run in (1, 0):
        s0 = st.copy()
        eng.store(s0, P(c.S, eng.off('o_run')), ('i', 8), BV(run, 8))
        for k in c.parts:
            eng.store(s0, P(c.S, c.off[k]), ('ptr',), P(c.obj[k]) if run else c64(0))
            if run:
                s0.ghost['s_' + k] = O8
        s0.ghost['run0'] = run
        s0.ghost['first'] = {k: ptr_term(c.cur(s0, k)) for k in c.parts}
        yield s0


@PROP.job('client-start', 'client')
def j_cstart(eng):
    c, st = client(eng)
    fn = eng.find(c.CLS + r'Start\(')
    for s0 in cli_cases(eng, c, st):
        for s, r in eng.call(s0, fn, [P(c.S)]):
            eng.cover(s)
            g = s.ghost
            eng.oblige(s, And(g['ss'] == 0, c.running(s), complete(c, s)), 'a-started-client-is-complete')
            eng.oblige(s, And(*[g['s_' + k] == 1 for k in c.parts if k != 'fc']), 'every-part-is-started-once')
            if g['run0']:
                eng.oblige(s, And(*[ptr_term(c.cur(s, k)) == g['first'][k] for k in c.parts]), 'a-running-client-is-left-alone')


@PROP.job('client-stop', 'client')
def j_cstop(eng):
    c, st = client(eng)
    ends(eng, c)
    fn = eng.find(c.CLS + r'Stop\(')
    for s0 in cli_cases(eng, c, st):
        for s, r in eng.call(s0, fn, [P(c.S)]):
            eng.cover(s)
            g = s.ghost
            w = g['run0']
            eng.oblige(s, And(g['ss'] == 0, Not(c.running(s)), complete(c, s)), 'a-stopped-one-holds-nothing')
            eng.oblige(s, And(*[g['e_' + k] == w for k in c.parts if k != 'fc']), 'every-part-is-stopped')
            eng.oblige(s, And(g['swept'] == w, g['cleared'] == w), 'every-connection-is-closed-and-forgotten')


# ---- construction --------------------------------------------------------------------------------------------------------
def construct(eng, kind):
    """a new object is stopped, holds nothing, and shares its limits out over the slices of a second"""
    c, st = server(eng) if kind == 'server' else client(eng)
    C = eng.contract
    C(r'^(int )?pthread_(mutex|spin|mutexattr)_(init|destroy|settype)', lambda e, s, a, n: BV(0, 32))
    C(r'^sofa::pbrpc::ServicePool::ServicePool', nop)
    C(r'^sofa::pbrpc::WebService::WebService', nop)
    C(r'^sofa::pbrpc::WebService::Init', nop)

    def maxi(w):
        def h(e, s, a, n):
            o = e.new_obj(s, 'max', 'cells', size=8)
            x, y = (e.load(s, p, ('i', w)) for p in a)
            e.store(s, P(o), ('i', w), If1(x < y, y, x))
            return P(o)
        return h
    C(r'^long const& std::max<long>', maxi(64))
    C(r'^int const& std::max<int>', maxi(32))
    L01.options(eng, c, st)
    args = [P(c.S), P(c.opt)]
    if kind == 'server':
        eh = fresh('handler', 64)
        args.append(eh)
    for s, r in eng.call(st, eng.find(c.CLS + r'Rpc%sImpl\(' % kind.capitalize()), args):
        eng.cover(s)
        tps = c.ld(s, 'o_tps')
        eng.oblige(s, And(c.ld(s, 'o_sc') == 10, tps == 1000000), 'ten-slices-per-second')
        nin, nout = L01.slice_of(c.oin, c64(10)), L01.slice_of(c.oout, c64(10))
        eng.oblige(s, And(c.ld(s, 'o_qi') == nin, c.ld(s, 'o_qo') == nout), 'a-limit-is-shared-out-over-the-slices-of-a-second')
        eng.oblige(s, (c.ld(s, 'o_lim', 8) == 1) == Or(nin != -1, nout != -1), 'a-limit-is-enforced')
        q = z3.SignExt(32, c.opb) * L01.MB
        eng.oblige(s, c.ld(s, 'o_mpb') == If1(q > 0, q, c64(0)), 'the-buffer-limit')
        eng.oblige(s, c.ld(s, 'o_ka') == If1(c.oka == -1, c64(-1), If1(c.oka > 1, z3.SignExt(32, c.oka), c64(1)) * 1000000), 'the-keep-alive-time')
        eng.oblige(s, And(Not(c.running(s)), complete(c, s)), 'stopped-and-holding-nothing')
        if kind == 'server':
            eng.oblige(s, ptr_term(eng.load(s, P(c.S, eng.off('o_eh')), ('ptr',))) == eh, 'knows-whom-to-tell')
            eng.oblige(s, And(c.ld(s, 'o_rli') == 3000000, c.ld(s, 'o_lrl') == 0), 'a-failed-listener-is-retried-every-3-seconds')
        o = lambda n: eng.load(s, P(c.S, eng.off('o_opt') + eng.off(n)), ('i', 32))
        eng.oblige(s, And(o('p_in') == c.oin, o('p_out') == c.oout, o('p_pb') == c.opb, o('p_ka') == c.oka), 'the-options-are-remembered')


@PROP.job('construct-server', 'server')
def j_cons_s(eng):
    construct(eng, 'server')


@PROP.job('construct-client', 'client')
def j_cons_c(eng):
    construct(eng, 'client')


# ---- threads -------------------------------------------------------------------------------------------------------------
PROP.tu('threads', '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/thread_group_impl.h>
#include <sofa/pbrpc/io_service_pool.cc>
using namespace sofa::pbrpc;
typedef ThreadGroupImpl G; typedef ThreadGroupImpl::ThreadParam TP;
extern "C" void vf_use(G* g, void* p) { G::thread_run(p); g->stop(); g->start(); g->~G(); }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_run, G, _is_running) OFF(o_n, G, _thread_num) OFF(o_work, G, _io_service_work) OFF(o_th, G, _threads) OFF(o_tp, G, _thread_params)
OFF(t_ios, TP, io_service) OFF(t_if, TP, init_func) OFF(t_df, TP, dest_func) OFF(t_done, TP, init_done) OFF(t_fail, TP, init_fail)
OFF(p_pool, IOServicePool, _pool) OFF(p_next, IOServicePool, _next_service) OFF(p_if, IOServicePool, _init_func) OFF(p_df, IOServicePool, _dest_func)
extern "C" const unsigned long SZ = sizeof(G), SZ_TP = sizeof(TP), SZ_P = sizeof(IOServicePool);
''')
TG = r'^sofa::pbrpc::ThreadGroupImpl::'


@PROP.job('thread', 'threads')
def j_thread(eng):
    """a thread is initialised, reports whether that worked, runs what is posted if it did, and is cleaned up"""
    C = eng.contract
    base = State()
    T = eng.new_obj(base, 'param', 'cells', size=eng.off('SZ_TP'))
    F = {k: eng.new_obj(base, k, 'cells', size=64) for k in ('init', 'dest')}
    for k in F:
        eng.store(base, P(F[k]), ('ptr',), P(eng.new_obj(base, k + 'vt', 'cells', size=128)))
    for n in ('t_done', 't_fail'):
        eng.store(base, P(T, eng.off(n)), ('i', 32), BV(0, 32))
    rd = lambda s, n: eng.load(s, P(T, eng.off(n)), ('i', 32))
    ios = eng.load(base, P(T, eng.off('t_ios')), ('ptr',))
    base.ghost.update({'init': Z8, 'dest': Z8, 'run': Z8, 'ok': TRUE})

    def virtual(e, s, fp, a, d):
        if isinstance(a[0], P) and a[0].obj is F['init']:
            r = fresh('initok', 1)
            e.oblige(s, And(s.ghost['run'] == 0, rd(s, 't_done') == 0), 'initialised-before-it-reports-and-runs')
            e.setghost(s, 'ok', r)
            log(e, s, 'init')
            return [(s, r)]
        if isinstance(a[0], P) and a[0].obj is F['dest']:
            e.oblige(s, s.ghost['run'] == one(s.ghost['ok']), 'cleaned-up-at-the-end')
            log(e, s, 'dest')
            return [(s, None)]
    eng.indirect = virtual

    def run(e, s, a, n):
        e.oblige(s, And(s.ghost['ok'], rd(s, 't_done') == 1, ptr_term(a[0]) == ptr_term(ios)), 'runs-after-it-reported-success')
        log(e, s, 'run')
        return c64(0)
    C(r'^boost::asio::io_(service|context)::run\(', run)

    def after(e, s, p, v):
        pass
    for hi in (0, 1):
        for hd in (0, 1):
            s0 = base.copy()
            eng.store(s0, P(T, eng.off('t_if')), ('ptr',), P(F['init']) if hi else c64(0))
            eng.store(s0, P(T, eng.off('t_df')), ('ptr',), P(F['dest']) if hd else c64(0))
            for s, r in eng.call(s0, eng.find(TG + r'thread_run\('), [P(T)]):
                eng.cover(s)
                g = s.ghost
                eng.oblige(s, And(g['init'] == hi, g['dest'] == hd, g['run'] == one(g['ok'])), 'each-step-once')
                eng.oblige(s, And(rd(s, 't_done') == 1, rd(s, 't_fail') == If1(g['ok'], BV(0, 32), BV(1, 32))), 'reports-whether-it-was-initialised')


@PROP.job('threads-stop', 'threads')
def j_tstop(eng):
    """stopping a group lets its threads run out of work and joins every one of them"""
    st = State()
    C = eng.contract
    G = eng.new_obj(st, 'group', 'cells', size=eng.off('SZ'))
    n = eng.load(st, P(G, eng.off('o_n')), ('i', 32))
    run0 = eng.load(st, P(G, eng.off('o_run')), ('i', 8))
    st.assume(And(z3.ULE(run0, 1), n >= 0, n < (1 << 20)))
    th = Obj('threads', 'elems', stride=8)
    th.layout = [(0, 8)]
    eng.objs[th.id] = th
    st.mem[th.id] = OState()
    q = SeqV(th, c64(0), z3.ZeroExt(32, n))
    eng.store(st, P(G, eng.off('o_th')), ('ptr',), elem_ptr(q, c64(0)))
    W = eng.new_obj(st, 'work', 'cells', size=64)
    eng.store(st, P(G, eng.off('o_work')), ('ptr',), P(W))
    eng.store(st, P(G, eng.off('o_tp')), ('ptr',), c64(0))
    x = fresh('x', 64)
    st.assume(z3.ULT(x, z3.ZeroExt(32, n)))
    st.ghost.update({'joined': Z8, 'work': Z8})

    def join(e, s, a, nm):
        g = s.ghost
        e.oblige(s, g['work'] == 1, 'threads-may-end-before-they-are-waited-for')
        hit = a[0] == q.at(e, s, x, 0, 8)
        log(e, s, 'joined', hit)
        return fresh('ret', 32)
    C(r'^(int )?pthread_join', join)
    C(r'.*io_(service|context)::work::~work', lambda e, s, a, nm: log(e, s, 'work'))

    def dele(e, s, a, nm):
        return None
    C(r'^operator delete', dele)

    def inv(e, ctx):
        out = []
        for nm, get in loop_ints(e, ctx):
            def f(s, env, get=get):
                i = get(s, env)
                return s.ghost['joined'] == one(z3.ULT(x, z3.SignExt(64 - i.size(), i) if i.size() < 64 else i))
            out.append(('joined-so-far ' + nm, f))

            def rng(s, env, get=get):
                i = get(s, env)
                i = z3.SignExt(64 - i.size(), i) if i.size() < 64 else i
                return And(i >= 0, i <= z3.ZeroExt(32, n))
            out.append(('in-range ' + nm, rng))
        return out
    eng.loopspecs.append(('.', inv))

    H = fresh('handle', 64)
    th.memo[('ef', 0, 8)] = AFn(lambda i: i + H, 64)        # threads have handles of their own
    for s, r in eng.call(st, eng.find(TG + r'stop\('), [P(G)]):
        eng.cover(s)
        g = s.ghost
        eng.oblige(s, And(g['joined'] == one(run0 == 1), g['work'] == one(run0 == 1)), 'every-thread-is-joined-once')
        eng.oblige(s, eng.load(s, P(G, eng.off('o_run')), ('i', 8)) == 0, 'stopped')


def pool(eng):
    c, st = Ctx(), State()
    smart(eng)
    C = eng.contract
    c.P = eng.new_obj(st, 'pool', 'cells', size=eng.off('SZ_P'))
    vp = P(c.P, eng.off('p_pool'))
    o = Obj('groups', 'elems', stride=16)
    o.layout = [(0, 8), (8, 8)]
    eng.objs[o.id] = o
    st.mem[o.id] = OState()
    H = fresh('groupaddr', 64)
    n = fresh('n', 64)
    st.assume(And(z3.ULT(n, 1 << 20), H > 0, H < (1 << 40)))
    o.memo[('ef', 0, 8)] = AFn(lambda i: H + i * 4096, 64)
    c.q = SeqV(o, c64(0), n)
    put_seq(eng, st, vp, c.q)
    c.n, c.H = n, H
    c.x = fresh('x', 64)
    st.assume(z3.ULT(c.x, n))
    c.hit = lambda w: w == H + c.x * 4096
    st.ghost.update({'x': Z8, 'setx': Z8, 'allok': TRUE, 'gone': Z8})
    return c, st


@PROP.job('pool-run', 'threads')
def j_prun(eng):
    """every group of the pool is started with the init and exit functions; the pool runs if and only if all of them do"""
    c, st = pool(eng)
    C = eng.contract
    fi, fd = (ptr_term(eng.load(st, P(c.P, eng.off(k)), ('ptr',))) for k in ('p_if', 'p_df'))
    g = st.ghost
    g.update({'ix': Z8, 'dx': Z8})
    C(TG + r'set_init_func', lambda e, s, a, n: log(e, s, 'ix', And(c.hit(ptr_term(a[0])), ptr_term(a[1]) == fi)))
    C(TG + r'set_dest_func', lambda e, s, a, n: log(e, s, 'dx', And(c.hit(ptr_term(a[0])), ptr_term(a[1]) == fd)))

    def start(e, s, a, n):
        h = c.hit(ptr_term(a[0]))
        e.oblige(s, Implies(h, And(s.ghost['ix'] != 0, s.ghost['dx'] != 0)), 'started-with-its-init-and-exit-functions')
        r = fresh('started', 1)
        log(e, s, 'x', h)
        e.setghost(s, 'allok', And(s.ghost['allok'], r))
        return r
    C(TG + r'start\(', start)

    def inv(e, ctx):
        out = [('all-so-far', lambda s, env: s.ghost['allok'])]
        for nm, get in loop_ints(e, ctx):
            if True:
                out.append(('in-range ' + nm, lambda s, env, get=get: z3.ULE(get(s, env), c.n) if get(s, env).size() == 64 else TRUE))
                for k in ('x', 'ix', 'dx'):
                    out.append(('%s-so-far %s' % (k, nm), lambda s, env, get=get, k=k: s.ghost[k] == one(z3.ULT(c.x, get(s, env))) if get(s, env).size() == 64 else TRUE))
        return out
    eng.loopspecs.append(('.', inv))
    for s, r in eng.call(st, eng.find(r'^sofa::pbrpc::IOServicePool::Run\('), [P(c.P)]):
        eng.cover(s)
        g = s.ghost
        r = tru(r)
        eng.oblige(s, r == g['allok'], 'runs-if-and-only-if-every-group-does')
        eng.oblige(s, Implies(r, g['x'] == 1), 'every-group-is-started')


@PROP.job('pool-stop', 'threads')
def j_pstop(eng):
    c, st = pool(eng)
    C = eng.contract
    C(TG + r'stop\(', lambda e, s, a, n: log(e, s, 'x', c.hit(ptr_term(a[0]))))
    C(SP + r'reset\(\)', nop)

    def inv(e, ctx):
        out = []
        for nm, get in loop_ints(e, ctx):
            out.append(('in-range ' + nm, lambda s, env, get=get: z3.ULE(get(s, env), c.n) if get(s, env).size() == 64 else TRUE))
            out.append(('x-so-far %s' % nm, lambda s, env, get=get: s.ghost['x'] == one(z3.ULT(c.x, get(s, env))) if get(s, env).size() == 64 else TRUE))
        return out
    eng.loopspecs.append(('.', inv))
    for s, r in eng.call(st, eng.find(r'^sofa::pbrpc::IOServicePool::Stop\('), [P(c.P)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['x'] == 1, 'every-group-is-stopped-once')


@PROP.job('pool-next', 'threads')
def j_pnext(eng):
    """connections are shared out over the groups of the pool in turn"""
    c, st = pool(eng)
    C = eng.contract
    nx = eng.load(st, P(c.P, eng.off('p_next')), ('i', 64))
    st.assume(z3.ULT(nx, c.n))

    def ios(e, s, a, n):
        s.ghost['of'] = ptr_term(a[0])
        s.ghost['ios'] = fresh('ios', 64)
        return s.ghost['ios']
    C(TG + r'io_service\(', ios)
    for s, r in eng.call(st, eng.find(r'^sofa::pbrpc::IOServicePool::GetIOService\('), [P(c.P)]):
        eng.cover(s)
        eng.oblige(s, And(s.ghost['of'] == c.H + nx * 4096, ptr_term(r) == s.ghost['ios']), 'the-next-group-in-turn')
        n1 = eng.load(s, P(c.P, eng.off('p_next')), ('i', 64))
        eng.oblige(s, n1 == If1(nx + 1 == c.n, c64(0), nx + 1), 'one-after-the-other')
