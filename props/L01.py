"""L01: throughput limits: what is read and written is paid for from a quota that is refilled once per slice, and who waits for quota is served in order."""
import re
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.cont import *
from vf.maps import *
from vf.smart import *
import props.F01 as F01
from props.T01 import times

PROP = Prop('L01')
PROP.assumptions = ['std::map and std::set enumerate every element exactly once; std::sort permutes and sorts by operator<',
                    'a connection appears once in the table of connections', 'the options are not changed while a maintenance run is in progress',
                    'boost::posix_time arithmetic on microsecond ticks is 64-bit integer arithmetic', 'FastLock provides mutual exclusion']
PROP.native('flow', 'flow.cc', args=['1'], thorough_args=['12'], what='real client and server with limits that are set, lifted and changed while calls wait', **F01.ALL)
FC_TU = '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/flow_controller.h>
using namespace sofa::pbrpc;
extern "C" int vf_use(FlowController* f, long q, bool n, int m) { f->reset_read_quota(n, q); f->reset_write_quota(n, q); f->recharge_read_quota(q); f->recharge_write_quota(q);
  new (f) FlowController(n, q, n, q); return f->acquire_read_quota(m) + f->acquire_write_quota(m) + f->has_read_quota() + f->has_write_quota(); }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_rn, FlowController, _read_no_limit) OFF(o_wn, FlowController, _write_no_limit) OFF(o_r, FlowController, _read_quota) OFF(o_w, FlowController, _write_quota)
extern "C" const unsigned long SZ = sizeof(FlowController);
'''
PROP.tu('fc', FC_TU)
FC = r'^sofa::pbrpc::FlowController::'
BIG = (1 << 31) - 1
If1 = z3.If
add = lambda eng, s, k, d=1: eng.setghost(s, k, z3.simplify(s.ghost[k] + d))


class Ctx:
    pass


def fc(eng):
    c, st = Ctx(), State()
    c.F = eng.new_obj(st, 'fc', 'cells', size=eng.off('SZ'))
    c.rd = lambda s, n, b=32: eng.load(s, P(c.F, eng.off(n)), ('i', b))
    for n in ('o_rn', 'o_wn'):
        st.assume(z3.ULE(c.rd(st, n, 8), 1))
    return c, st


def clamp(q):
    return If1(q > BIG, BV(BIG, 32), z3.Extract(31, 0, q))


def shared(eng, c, st, o, step):
    """another thread may change the quota before each access; remember the value this thread replaced"""
    def env(e, s, p):
        if isinstance(p, P) and p.obj is c.F and p.off == e.off(o):
            v = fresh('quota', 32)
            s.assume(v > BV(1 << 31, 32) + (1 << 30))    # in debt by less than 2^30
            e.wst(s, c.F).cells[p.off] = (4, v)
    eng.interfere = env

    def cas(e, s, p, old, new, hit):
        if isinstance(p, P) and p.obj is c.F and p.off == e.off(o):
            eng.setghost(s, 'old', z3.simplify(If1(hit, old, s.ghost['old'])))
            eng.setghost(s, 'new', z3.simplify(If1(hit, new, s.ghost['new'])))
            add(e, s, 'hits', If1(hit, BV(1, 32), BV(0, 32)))
    eng.after_cas = cas
    st.ghost.update({'old': BV(0, 32), 'new': BV(0, 32), 'hits': BV(0, 32)})

    def inv(e, ctx):
        out = [('not-yet-changed', lambda s, env: s.ghost['hits'] == ctx.st0.ghost['hits'])]
        ints = loop_ints(e, ctx)

        def pair(x, y):
            def f(s, env):
                o, w = z3.Extract(31, 0, x(s, env)), z3.Extract(31, 0, y(s, env))
                return w == step(o)
            return f
        return out + [('next-of %s %s' % (x, y), pair(gx, gy)) for x, gx in ints for y, gy in ints if x != y]
    eng.loopspecs.append(('.', inv))


for _d, _o, _n, _x in (('read', 'o_r', 'o_rn', 'o_w'), ('write', 'o_w', 'o_wn', 'o_r')):
    @PROP.job('acquire_%s' % _d, 'fc')
    def j_acquire(eng, d=_d, o=_o, n=_n, x=_x):
        """succeeds exactly if some quota was left, and then takes all that was asked for; who fails queues up behind those that failed before"""
        c, st = fc(eng)
        q = fresh('ask', 32)
        shared(eng, c, st, o, lambda old: If1(old > 0, old - q, old - 1))
        st.assume(And(q >= 0, q < (1 << 30)))
        other, no = c.rd(st, x), c.rd(st, n, 8)
        for s, r in eng.call(st, eng.find(FC + r'acquire_%s_quota' % d), [P(c.F), q]):
            eng.cover(s)
            g = s.ghost
            lim = no == 0
            eng.oblige(s, Implies(Not(lim), And(r > 0, g['hits'] == 0)), 'without-a-limit-always-granted')
            eng.oblige(s, Implies(lim, And(g['hits'] == 1, r == g['old'])), 'with-a-limit-decided-in-one-step')
            eng.oblige(s, Implies(And(lim, g['old'] > 0), g['new'] == g['old'] - q), 'what-is-granted-is-paid-for')
            eng.oblige(s, Implies(And(lim, g['old'] <= 0), g['new'] == g['old'] - 1), 'who-is-refused-gets-the-next-place-in-the-queue')
            eng.oblige(s, And(c.rd(s, x) == other, c.rd(s, n, 8) == no), 'nothing-else-changes')

    @PROP.job('recharge_%s' % _d, 'fc')
    def j_recharge(eng, d=_d, o=_o, n=_n, x=_x):
        """refilling never saves up unused quota, and debts are paid first"""
        c, st = fc(eng)
        q = fresh('slice', 64)
        shared(eng, c, st, o, lambda old: If1(old > 0, clamp(q), old + clamp(q)))
        other, no = c.rd(st, x), c.rd(st, n, 8)
        st.assume(And(Implies(no == 0, q >= 0)))
        for s, r in eng.call(st, eng.find(FC + r'recharge_%s_quota' % d), [P(c.F), q]):
            eng.cover(s)
            g = s.ghost
            lim = no == 0
            eng.oblige(s, Implies(Not(lim), g['hits'] == 0), 'without-a-limit-nothing-to-do')
            eng.oblige(s, Implies(lim, And(g['hits'] == 1, g['new'] == If1(g['old'] > 0, clamp(q), g['old'] + clamp(q)))), 'at-most-one-slice-of-quota-is-available')
            eng.oblige(s, And(c.rd(s, x) == other, c.rd(s, n, 8) == no), 'nothing-else-changes')

    @PROP.job('reset_%s' % _d, 'fc')
    def j_reset(eng, d=_d, o=_o, n=_n, x=_x):
        c, st = fc(eng)
        nl, q = fresh('nolimit', 1), fresh('slice', 64)
        st.assume(Implies(Not(nl), q >= 0))
        other = c.rd(st, x)
        for s, r in eng.call(st, eng.find(FC + r'reset_%s_quota' % d), [P(c.F), nl, q]):
            eng.cover(s)
            eng.oblige(s, (c.rd(s, n, 8) != 0) == nl, 'limited-as-asked')
            eng.oblige(s, Implies(Not(nl), c.rd(s, o) == clamp(q)), 'one-slice-of-quota-at-once')
            eng.oblige(s, c.rd(s, x) == other, 'nothing-else-changes')
        c, st = fc(eng)
        st.ghost.pop('hits', None)
        for s, r in eng.call(st, eng.find(FC + r'has_%s_quota' % d), [P(c.F)]):
            eng.cover(s)
            b = r if z3.is_bool(r) else r == 1
            eng.oblige(s, b == Or(c.rd(st, n, 8) != 0, c.rd(st, o) > 0), 'reports-quota')


@PROP.job('construct', 'fc')
def j_ctor(eng):
    c, st = fc(eng)
    nr, nw, qr, qw = fresh('nr', 1), fresh('nw', 1), fresh('qr', 64), fresh('qw', 64)
    st.assume(And(Implies(Not(nr), qr >= 0), Implies(Not(nw), qw >= 0)))
    for s, r in eng.call(st, eng.find(FC + r'FlowController\('), [P(c.F), nr, qr, nw, qw]):
        eng.cover(s)
        eng.oblige(s, And((c.rd(s, 'o_rn', 8) != 0) == nr, (c.rd(s, 'o_wn', 8) != 0) == nw), 'limited-as-asked')
        eng.oblige(s, And(Implies(Not(nr), c.rd(s, 'o_r') == clamp(qr)), Implies(Not(nw), c.rd(s, 'o_w') == clamp(qw))), 'one-slice-of-quota-at-once')


# ---- the maintenance run of the client and of the server -----------------------------------------------------------------
TUX = '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/rpc_%(f)s_impl.cc>
using namespace sofa::pbrpc;
typedef Rpc%(F)sImpl I;
extern "C" bool vf_less(const I::FlowControlItem* a, const I::FlowControlItem* b) { return *a < *b; }
extern "C" bool vf_trig(Rpc%(F)sStream* s) { bool a = s->%(M)s::trigger_receive(); return s->%(M)s::trigger_send() && a; }
extern "C" void vf_mk(FlowController** f) { *f = new FlowController(true, 1, true, 1); }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_run, I, _is_running) OFF(o_map, I, %(map)s) OFF(o_lock, I, %(map)s_lock) OFF(o_ka, I, _keep_alive_ticks) OFF(o_lim, I, _flow_limited)
OFF(o_qi, I, _slice_quota_in) OFF(o_qo, I, _slice_quota_out) OFF(o_fc, I, _flow_controller) OFF(o_epoch, I, %(epoch)s) OFF(o_last, I, _last_maintain_ticks)
OFF(o_sc, I, _slice_count) OFF(o_tps, I, _ticks_per_second) OFF(o_mpb, I, _max_pending_buffer_size) OFF(o_opt, I, _options)
OFF(p_in, Rpc%(F)sOptions, max_throughput_in) OFF(p_out, Rpc%(F)sOptions, max_throughput_out) OFF(p_pb, Rpc%(F)sOptions, max_pending_buffer_size) OFF(p_ka, Rpc%(F)sOptions, keep_alive_time)
OFF(i_tok, I::FlowControlItem, token) OFF(i_str, I::FlowControlItem, stream)
OFF(m_rq, %(M)s, _read_quota_token) OFF(m_wq, %(M)s, _write_quota_token)
%(extra)s
extern "C" const unsigned long SZ = sizeof(I), SZ_I = sizeof(I::FlowControlItem), SZ_P = sizeof(Rpc%(F)sOptions), SZ_M = sizeof(%(M)s);
'''
KIND = {
    'client': dict(f='client', F='Client', map='_stream_map', epoch='_epoch_time', M='RpcMessageStream<RpcControllerImplPtr>', extra=''),
    'server': dict(f='server', F='Server', map='_stream_set', epoch='_start_time', M='RpcServerMessageStream<SendResponseCallback>', extra='''
OFF(o_lis, I, _listener) OFF(o_lrl, I, _last_restart_listen_ticks) OFF(o_rli, I, _restart_listen_interval_ticks) OFF(o_lss, I, _last_switch_stat_slot_ticks)
OFF(o_ssi, I, _switch_stat_slot_interval_ticks) OFF(p_mc, RpcServerOptions, max_connection_count)'''),
}
for _k, _v in KIND.items():
    PROP.tu(_k, TUX % _v)


def impl(eng, kind):
    c, st = Ctx(), State()
    c.kind, c.server = kind, kind == 'server'
    c.CLS = r'^sofa::pbrpc::Rpc%sImpl::' % kind.capitalize()
    c.S = eng.new_obj(st, 'impl', 'cells', size=eng.off('SZ'))
    c.ld = lambda s, n, b=64: eng.load(s, P(c.S, eng.off(n)), ('i', b))
    times(eng)
    smart(eng)
    C = eng.contract
    st.ghost.update({'locked': c64(0)})

    def keyof(e, s, p, d):
        return ptr_term(e.load(s, p, ('ptr',)))
    c.maps = Maps(eng, keyof=keyof, kset=lambda e, s, node, k, d: e.store(s, P(node), ('ptr',), k), voff=32, vsize=0 if c.server else 8)
    c.X, c.Y = fresh('X', 64), fresh('Y', 64)
    st.assume(c.X != c.Y)
    c.maps.watch = [c.X, c.Y]
    c.mapp = P(c.S, eng.off('o_map'))

    def islock(p):
        return isinstance(p, P) and p.obj is c.S and p.off == eng.off('o_lock')

    def lock(e, s, a, n):
        if islock(a[0]):
            e.oblige(s, s.ghost['locked'] == 0, 'takes-a-free-lock')
            e.setghost(s, 'locked', c64(1))
            # other threads may have added or removed connections
            v = c.maps.get(s, c.mapp)
            if 'atlock' not in s.ghost:
                s.ghost['atlock'] = v
        return BV(0, 32)

    def unlock(e, s, a, n):
        if islock(a[0]):
            e.oblige(s, s.ghost['locked'] == 1, 'releases-what-it-took')
            e.setghost(s, 'locked', c64(0))
        return BV(0, 32)
    C(r'^(int )?pthread_(spin|mutex)_lock|^sofa::pbrpc::(SpinLock|MutexLock)::lock\(', lock)
    C(r'^(int )?pthread_(spin|mutex)_unlock|^sofa::pbrpc::(SpinLock|MutexLock)::unlock\(', unlock)

    def guard(e, s, p):
        if p.obj is c.S:
            e.oblige(s, s.ghost['locked'] == 1, 'the-table-is-touched-only-under-its-lock')
    c.maps.guard = guard
    c.m0 = c.maps.get(st, c.mapp)
    # the streams of the two watched connections
    if c.server:
        c.SX, c.SY = c.X, c.Y
    else:
        c.SX, c.SY = z3.Select(c.m0.val, c.X), z3.Select(c.m0.val, c.Y)
        st.assume(c.SX != c.SY)
    st.assume(And(c.SX != 0, c.SY != 0))
    c.px, c.py = z3.Select(c.m0.pres, c.X), z3.Select(c.m0.pres, c.Y)
    return c, st


def own(c, s, q, i, word):
    """a connection is in the table once: another element is another stream"""
    for x, sx_ in ((c.X, c.SX), (c.Y, c.SY)):
        s.assume(Implies(word == sx_, q == x))


@PROP.job('item-order', 'client')
def j_less_c(eng):
    less(eng)


@PROP.job('item-order-server', 'server')
def j_less_s(eng):
    less(eng)


def less(eng):
    st = State()
    o = [eng.new_obj(st, 'item%d' % i, 'cells', size=eng.off('SZ_I')) for i in range(2)]
    t = [eng.load(st, P(x, eng.off('i_tok')), ('i', 32)) for x in o]
    for s, r in eng.call(st, eng.find(r'^vf_less'), [P(x) for x in o]):
        eng.cover(s)
        b = r if z3.is_bool(r) else (z3.Extract(0, 0, r) == 1)
        eng.oblige(s, b == (t[0] > t[1]), 'who-was-refused-first-comes-first')


def maintain(eng, kind):
    """one maintenance run, seen from two arbitrary connections x and y"""
    c, st = impl(eng, kind)
    C = eng.contract
    g0 = st.ghost
    ka, lim = c.ld(st, 'o_ka'), c.ld(st, 'o_lim', 8)
    st.assume(z3.ULE(lim, 1))
    qi, qo = c.ld(st, 'o_qi'), c.ld(st, 'o_qo')
    st.assume(Implies(lim == 0, And(qi == -1, qo == -1)))
    now, epoch = fresh('nowt', 64), c.ld(st, 'o_epoch')
    for t in (now, epoch):
        st.assume(And(t >= 0, t < (1 << 61)))
    ticks = z3.simplify(now - epoch)
    F = eng.new_obj(st, 'fc', 'cells', size=64)
    eng.store(st, P(c.S, eng.off('o_fc')), ('ptr',), P(F))
    Z = BV(0, 8)
    for w in 'xy':
        for k in ('seen', 'closed', 'idle', 'close', 'reset', 'rtok', 'wtok', 'rseen', 'wseen', 'rcnt', 'wcnt', 'rtrig', 'wtrig', 'rclosed', 'wclosed'):
            g0[k + w] = Z if not k.endswith('tok') else BV(1, 32)
    g0.update({'phase': 0, 'rech_r': Z, 'rech_w': Z, 'sorted_r': 0, 'sorted_w': 0, 'listen': Z, 'slot': Z, 'now_r': FALSE, 'now_w': FALSE, 'lastclosed': FALSE})
    W = (('x', c.SX), ('y', c.SY))
    one = lambda b: If1(b, BV(1, 8), BV(0, 8))

    def is_closed(e, s, a, n):
        p = ptr_term(a[0])
        r = fresh('closed', 1)
        if s.ghost['phase'] == 0:
            eng.setghost(s, 'lastclosed', r)
            for w, sw in W:
                eng.setghost(s, 'closed' + w, z3.simplify(If1(p == sw, one(r), s.ghost['closed' + w])))
                add(e, s, 'seen' + w, one(p == sw))
        else:
            d = 'r' if s.ghost['phase'] == 1 else 'w'
            for w, sw in W:
                eng.setghost(s, d + 'closed' + w, z3.simplify(If1(p == sw, one(r), s.ghost[d + 'closed' + w])))
                add(e, s, d + 'seen' + w, one(p == sw))
        return r
    B = r'^sofa::pbrpc::RpcByteStream::'
    C(B + r'is_closed\(', is_closed)
    lrw, pend = fresh('lastrw', 64), fresh('pending', 32)

    def lastrw(e, s, a, n):
        r = fresh('lastrw', 64)
        s.assume(And(r >= 0, r < (1 << 61)))
        for w, sw in W:
            eng.setghost(s, 'idle' + w, z3.simplify(If1(ptr_term(a[0]) == sw, one(ticks - r >= ka), s.ghost['idle' + w])))
        return r
    C(B + r'last_rw_ticks\(', lastrw)

    def pending(e, s, a, n):
        r = fresh('pending', 32)
        for w, sw in W:
            eng.setghost(s, 'idle' + w, z3.simplify(If1(ptr_term(a[0]) == sw, one(And(s.ghost['idle' + w] == 1, r == 0)), s.ghost['idle' + w])))
        return r
    C(r'^sofa::pbrpc::Rpc(Server|Client)Stream::pending_process_count\(', pending)

    def close(e, s, a, n):
        e.oblige(s, s.ghost['locked'] == 0, 'connections-are-closed-outside-the-lock')
        for w, sw in W:
            e.oblige(s, Implies(ptr_term(a[0]) == sw, s.ghost['idle' + w] == 1), 'only-idle-connections-are-closed')
            add(e, s, 'close' + w, one(ptr_term(a[0]) == sw))
    C(B + r'close\(', close)

    def reset(e, s, a, n):
        e.oblige(s, And(a[1] == ticks, Not(a[2]) if z3.is_bool(a[2]) else a[2] == 0), 'the-clock-of-the-connection-is-set-to-now')
        for w, sw in W:
            add(e, s, 'reset' + w, one(ptr_term(a[0]) == sw))
    C(B + r'reset_ticks\(', reset)
    C(r'^.*boost::lexical_cast<std::.*string.*>\(', lambda e, s, a, n: set_str(e, s, a[0], ASym('num'), c64(2)))

    for d, dn, tr in (('r', 'read', 'receive'), ('w', 'write', 'send')):
        def recharge(e, s, a, n, d=d):
            e.oblige(s, z3.BoolVal(isinstance(a[0], P) and a[0].obj is F), 'the-quota-of-this-object')
            e.oblige(s, a[1] == (qi if d == 'r' else qo), 'one-slice-of-quota')
            add(e, s, 'rech_' + d)
            eng.setghost(s, 'phase', 1 if d == 'r' else 2)
        C(FC + r'recharge_%s_quota' % dn, recharge, trusted=False)

        def token(e, s, a, n, d=d):
            r = fresh('token', 32)
            e.oblige(s, z3.BoolVal(s.ghost['phase'] == (1 if d == 'r' else 2)), 'reads-the-token-of-its-direction')
            for w, sw in W:
                eng.setghost(s, d + 'tok' + w, z3.simplify(If1(ptr_term(a[0]) == sw, r, s.ghost[d + 'tok' + w])))
            return r
        C(r'.*::%s_quota_token\(' % dn, token)

        def trigger(e, s, a, n, d=d):
            g = s.ghost
            p = ptr_term(a[0])
            e.oblige(s, g['locked'] == 0, 'connections-are-triggered-outside-the-lock')
            e.oblige(s, g['rech_' + d] == 1, 'quota-is-refilled-before-anybody-is-triggered')
            both = And(g[d + 'cntx'] == 1, g[d + 'cnty'] == 1, g[d + 'tokx'] > g[d + 'toky'])
            e.oblige(s, Implies(And(p == c.SY, both), g[d + 'trigx'] == 1), 'who-was-refused-first-is-triggered-first')
            for w, sw in W:
                add(e, s, d + 'trig' + w, one(p == sw))
            return fresh('started', 1)
        C(r'.*::trigger_%s\(' % tr, trigger)

    vt = eng.new_obj(st, 'avtable', 'cells', size=8)
    eng.set_vptr(st, vt, 'sofa::pbrpc::Rpc%sStream' % kind.capitalize())

    def virtual(e, s, fp, a, d):
        m = re.search(r'@(\d+)\.8!\d+\|?\)*$', str(fp))
        f = e.load(s, e.load(s, P(vt), ('ptr',)).add(int(m.group(1))), ('ptr',)) if m else None
        return e.call(s, f.name, a, d['rty']) if isinstance(f, FnP) else None
    eng.indirect = virtual

    def cur(s):
        return 'r' if s.ghost['phase'] == 1 else 'w'
    VEC = r'^std::vector<sofa::pbrpc::Rpc(Server|Client)Impl::FlowControlItem.*>::'

    def push(e, s, a, n):
        v = get_seq(e, s, a[0], e.demangled(n))
        d = cur(s)
        tok, sp = e.load(s, a[1].add(e.off('i_tok')), ('i', 32)), ptr_term(e.load(s, a[1].add(e.off('i_str')), ('ptr',)))
        for w, sw in W:
            e.oblige(s, Implies(sp == sw, And(tok == s.ghost[d + 'tok' + w], tok <= 0)), 'listed-with-its-own-token')
            add(e, s, d + 'cnt' + w, one(sp == sw))
        e.oblige(s, sp != 0, 'lists-connections')
        put_seq(e, s, a[0], SeqV(v.obj, v.lo, z3.simplify(v.len + 1)))
        copy_elem(e, s, v, z3.simplify(v.lo + v.len), a[1])
    C(VEC + r'(push_back|emplace_back)', push)

    def place(e, s, d, n, order=False):
        """where the two connections are in the list (a list that has an element once has it at one place)"""
        for w, sw in W:
            ix = fresh('pos' + w, 64)
            s.ghost['pos_%s%s' % (d, w)] = ix
            s.assume(Implies(s.ghost[d + 'cnt' + w] == 1, z3.ULT(ix, n)))
        if order:
            s.assume(Implies(And(s.ghost[d + 'cntx'] == 1, s.ghost[d + 'cnty'] == 1, s.ghost[d + 'tokx'] > s.ghost[d + 'toky']),
                             z3.ULT(s.ghost['pos_%sx' % d], s.ghost['pos_%sy' % d])))

    def sort(e, s, a, n):
        d = cur(s)
        if not all(isinstance(x, P) and x.obj.kind == 'elems' for x in a[:2]):
            raise Unsupported('sort %r' % (a,))
        v = s.ghost[a[0].obj.seqkey]
        i, r = e.elem_split(a[0])
        j, r2 = e.elem_split(a[1])
        e.oblige(s, And(i == v.lo, j == v.lo + v.len), 'sorts-the-whole-list')
        k = v.obj.seqkey
        nv = v.havoc(e, s, k)       # a permutation: the same elements in another order
        nv.obj.seqkey = k
        s.ghost[k] = SeqV(nv.obj, v.lo, v.len)
        place(e, s, d, v.len, True)
    C(r'^void std::sort<', sort)
    IT = r'.*__normal_iterator<sofa::pbrpc::Rpc(Server|Client)Impl::FlowControlItem\s*\*.*>::operator'

    def deref(e, s, a, n):
        p = e.load(s, a[0], ('ptr',))
        if isinstance(p, P) and p.obj.kind == 'elems':
            d = cur(s)
            v = s.ghost[p.obj.seqkey]
            i, r = e.elem_split(p)
            if 'pos_%sx' % d not in s.ghost:
                raise Unsupported('unsorted list')
            word = v.at(e, s, i - v.lo, e.off('i_str'), 8)
            s.assume(word != 0)
            s.assume(ptr_term(e.load(s, P(e.lazy_obj(word)), ('ptr',))) != 0)     # a live object has a vtable
            for w, sw in W:
                s.assume(Implies(z3.ULT(i - v.lo, v.len), (word == sw) == And(s.ghost[d + 'cnt' + w] == 1, i - v.lo == s.ghost['pos_%s%s' % (d, w)])))
        return p
    C(IT + r'(->|\*)\(\) const', deref)

    def extra(s, q, i, k):
        # a connection is in the table once: another element is another stream
        if not c.server:
            v = q.at(eng, s, i, 32, 8)
            s.assume(And(Implies(v == c.SX, k == c.X), Implies(v == c.SY, k == c.Y), v != 0))
        else:
            s.assume(k != 0)        # only accepted connections are entered
    c.maps.extra = extra

    def inv(e, ctx):
        out = []
        g0 = ctx.st0.ghost
        enums = [g0[k][0] for k in g0 if isinstance(k, tuple) and k[0] == 'enum']
        ph = g0['phase']
        for q in enums:
            for nm_, get in loop_iters(e, ctx, q.obj):
                out.append(('in-range ' + nm_, lambda s, env, get=get, q=q: z3.ULE(get(s, env), q.len)))
                for (x, ix), w, pr in zip(q.obj.watch, 'xy', (c.px, c.py)):
                    past = lambda s, env, get=get, ix=ix, pr=pr: And(pr, z3.ULT(ix, get(s, env)))
                    G = lambda s, k, w=w: s.ghost[k + w]
                    if ph == 0:
                        out.append(('seen-%s %s' % (w, nm_), lambda s, env, G=G, past=past: G(s, 'seen') == one(past(s, env))))
                    else:
                        d = 'r' if ph == 1 else 'w'
                        out.append(('%s-seen-%s %s' % (d, w, nm_), lambda s, env, G=G, past=past, d=d: G(s, d + 'seen') == one(past(s, env))))
        for w in 'xy':
            G = lambda s, k, w=w: s.ghost[k + w]
            out.append(('kept-%s' % w, lambda s, env, G=G: kept(G, s)))
            for d in 'rw':
                out.append(('listed-%s%s' % (d, w), lambda s, env, G=G, d=d: G(s, d + 'cnt') == one(And(G(s, d + 'seen') == 1, G(s, d + 'closed') == 0, G(s, d + 'tok') <= 0))))
                out.append(('first-%s%s' % (d, w), lambda s, env, G=G, d=d: G(s, d + 'trig') == 0))
        vecs = [(k, v) for k, v in g0.items() if isinstance(k, tuple) and k[0] == 'seq']
        if ph:
            d = 'r' if ph == 1 else 'w'
            for k, v in vecs:
                for nm_, get in loop_iters(e, ctx, v.obj):
                    out.append(('in-list ' + nm_, lambda s, env, get=get, k=k: z3.ULE(get(s, env) - s.ghost[k].lo, s.ghost[k].len)))
                    for w in 'xy':
                        out.append(('trig-%s %s' % (w, nm_), lambda s, env, get=get, k=k, w=w, d=d: s.ghost[d + 'trig' + w] == one(
                            And(s.ghost[d + 'cnt' + w] == 1, z3.ULT(s.ghost['pos_%s%s' % (d, w)], get(s, env) - s.ghost[k].lo)))))
        return out
    eng.loopspecs.append(('.', inv))
    return c, st, ka, lim, ticks, now, epoch


def kept(G, s):
    one = lambda b: If1(b, BV(1, 8), BV(0, 8))
    op = And(G(s, 'seen') == 1, G(s, 'closed') == 0)
    return And(G(s, 'close') == one(And(op, G(s, 'idle') == 1)), G(s, 'reset') == one(And(op, G(s, 'idle') != 1)))


@PROP.job('maintain-client', 'client')
def j_maint_c(eng):
    run(eng, 'client')


@PROP.job('maintain-server', 'server')
def j_maint_s(eng):
    run(eng, 'server', False)


@PROP.job('maintain-server-closed-listener', 'server')
def j_maint_sl(eng):
    run(eng, 'server', True)


def run(eng, kind, lis=False):
    c, st, ka, lim, ticks, now, epoch = maintain(eng, kind)
    if c.server:
        lrl, rli, lss, ssi = (c.ld(st, x) for x in ('o_lrl', 'o_rli', 'o_lss', 'o_ssi'))
        C = eng.contract

        def lisclosed(e, s, a, n):
            r = z3.BoolVal(lis)
            s.ghost['lisclosed'] = r
            return r
        C(r'^sofa::pbrpc::RpcListener::is_closed\(', lisclosed)
        C(c.CLS + r'RestartListen\(', lambda e, s, a, n: add(e, s, 'listen'), trusted=False)
        C(r'^sofa::pbrpc::ServicePool::NextSlot\(', lambda e, s, a, n: add(e, s, 'slot'))
    tp = eng.new_obj(st, 'now', 'cells', size=8)
    eng.store(st, P(tp), ('i', 64), now)
    for s, r in eng.call(st, eng.find(c.CLS + r'TimerMaintain\('), [P(c.S), P(tp)]):
        eng.cover(s)
        g = s.ghost
        one = lambda b: If1(b, BV(1, 8), BV(0, 8))
        for w, pr in (('x', c.px), ('y', c.py)):
            G = lambda s, k, w=w: s.ghost[k + w]
            eng.oblige(s, Implies(ka == -1, G(s, 'close') == 0), 'without-a-keep-alive-time-nothing-is-closed')
            eng.oblige(s, Implies(ka != -1, And(G(s, 'seen') == one(pr), kept(G, s))), 'idle-connections-are-closed-and-no-other')
            for d in 'rw':
                eng.oblige(s, Implies(lim == 1, And(g['rech_' + d] == 1, G(s, d + 'seen') == one(pr))), 'one-slice-of-quota-per-run')
                eng.oblige(s, Implies(lim == 1, G(s, d + 'trig') == one(And(pr, G(s, d + 'closed') == 0, G(s, d + 'tok') <= 0))), 'whoever-waits-for-quota-is-triggered-once')
        eng.oblige(s, g['locked'] == 0, 'the-lock-is-released')
        if c.server:
            eng.oblige(s, g['listen'] == one(And(g.get('lisclosed', FALSE), ticks - lrl >= rli)), 'a-closed-listener-is-restarted-when-due')
            eng.oblige(s, Implies(g['listen'] == 1, c.ld(s, 'o_lrl') == ticks), 'restarts-are-spaced')
            eng.oblige(s, And(g['slot'] == one(ticks - lss >= ssi), c.ld(s, 'o_lss') == If1(ticks - lss >= ssi, ticks, lss)), 'statistics-move-to-the-next-slot-when-due')


# ---- options -------------------------------------------------------------------------------------------------------------
MB = 1 << 20


def slice_of(mb, sc):
    """bytes per slice of a limit in MB/s; -1: no limit"""
    q = z3.SignExt(32, mb) * MB if mb.size() == 32 else mb * MB
    return If1(mb == -1, c64(-1), If1(q > 0, q, c64(0)) / sc)


def options(eng, c, st):
    o = eng.new_obj(st, 'newoptions', 'cells', size=eng.off('SZ_P'))
    rd = lambda n, b: eng.load(st, P(o, eng.off(n)), ('i', b))
    c.opt = o
    c.oin, c.oout, c.opb, c.oka = (rd(n, 32) for n in ('p_in', 'p_out', 'p_pb', 'p_ka'))
    return o


def opt_jobs(eng, kind):
    """new options take effect on everything that is already open, and on the quota of the slice that is running"""
    c, st = impl(eng, kind)
    C = eng.contract
    F = eng.new_obj(st, 'fc', 'cells', size=64)
    options(eng, c, st)

    def maxi(w):
        def h(e, s, a, n):
            o = e.new_obj(s, 'max', 'cells', size=8)
            x, y = (e.load(s, p, ('i', w)) for p in a)
            e.store(s, P(o), ('i', w), If1(x < y, y, x))
            return P(o)
        return h
    C(r'^long const& std::max<long>', maxi(64))
    C(r'^int const& std::max<int>', maxi(32))
    sc, tps = c.ld(st, 'o_sc'), c.ld(st, 'o_tps')
    old = [c.ld(st, n) for n in ('o_qi', 'o_qo', 'o_mpb')]
    lim0 = c.ld(st, 'o_lim', 8)
    st.assume(And(sc == 10, tps == 1000000, z3.ULE(lim0, 1)))
    g = st.ghost
    one = lambda b: If1(b, BV(1, 8), BV(0, 8))
    for w in 'xy':
        g['told' + w] = BV(0, 8)
    for d in 'rw':
        g['reset_' + d] = BV(0, 8)
    W = (('x', c.SX), ('y', c.SY))
    new_in, new_out = slice_of(c.oin, sc), slice_of(c.oout, sc)
    q = z3.SignExt(32, c.opb) * MB
    new_pb = If1(q > 0, q, c64(0))

    for d, dn, v in (('r', 'read', new_in), ('w', 'write', new_out)):
        def reset(e, s, a, n, d=d, v=v):
            e.oblige(s, z3.BoolVal(bool(s.ghost['has'] and isinstance(a[0], P) and a[0].obj is F)), 'no-quota-is-set-on-a-stopped-object')
            e.oblige(s, And((a[1] if z3.is_bool(a[1]) else a[1] != 0) == (v == -1), a[2] == v), 'the-running-slice-gets-the-new-quota')
            add(e, s, 'reset_' + d)
        C(FC + r'reset_%s_quota' % dn, reset, trusted=False)

    def setpb(e, s, a, n):
        e.oblige(s, s.ghost['locked'] == 1, 'connections-are-told-under-the-lock')
        e.oblige(s, a[1] == new_pb, 'the-new-buffer-limit')
        for w, sw in W:
            add(e, s, 'told' + w, one(ptr_term(a[0]) == sw))
    C(r'.*::set_max_pending_buffer_size\(', setpb)

    def extra(s, q, i, k):
        if not c.server:
            v = q.at(eng, s, i, 32, 8)
            s.assume(And(Implies(v == c.SX, k == c.X), Implies(v == c.SY, k == c.Y), v != 0))
        else:
            s.assume(k != 0)        # only accepted connections are entered
    c.maps.extra = extra

    def inv(e, ctx):
        out = []
        g0 = ctx.st0.ghost
        for q in [g0[k][0] for k in g0 if isinstance(k, tuple) and k[0] == 'enum']:
            for nm_, get in loop_iters(e, ctx, q.obj):
                out.append(('in-range ' + nm_, lambda s, env, get=get, q=q: z3.ULE(get(s, env), q.len)))
                for (x, ix), w, pr in zip(q.obj.watch, 'xy', (c.px, c.py)):
                    out.append(('told-%s %s' % (w, nm_), lambda s, env, get=get, ix=ix, pr=pr, w=w: s.ghost['told' + w] == one(And(pr, z3.ULT(ix, get(s, env))))))
        return out
    eng.loopspecs.append(('.', inv))
    fn = eng.find(c.CLS + r'ResetOptions\(')
    out = []
    for has in (0, 1):
        s0 = st.copy()
        s0.ghost['has'] = has
        eng.store(s0, P(c.S, eng.off('o_fc')), ('ptr',), P(F) if has else c64(0))
        out += eng.call(s0, fn, [P(c.S), P(c.opt)])
    for s, r in out:
        eng.cover(s)
        g = s.ghost
        has = g['has']
        eng.oblige(s, And(c.ld(s, 'o_qi') == new_in, c.ld(s, 'o_qo') == new_out), 'a-limit-is-shared-out-over-the-slices-of-a-second')
        eng.oblige(s, Implies(Or(new_in != -1, new_out != -1), c.ld(s, 'o_lim', 8) == 1), 'a-limit-is-enforced')
        eng.oblige(s, Implies(lim0 == 1, c.ld(s, 'o_lim', 8) == 1), 'who-waits-is-not-forgotten-when-the-limit-is-lifted')
        eng.oblige(s, c.ld(s, 'o_mpb') == new_pb, 'the-new-buffer-limit')
        ka = z3.SignExt(32, c.oka)
        eng.oblige(s, c.ld(s, 'o_ka') == If1(c.oka == -1, c64(-1), If1(c.oka > 1, ka, c64(1)) * tps), 'the-new-keep-alive-time')
        for w, pr in (('x', c.px), ('y', c.py)):
            eng.oblige(s, Implies(And(pr, new_pb != old[2]), g['told' + w] == 1), 'every-connection-is-told')
        if has:
            eng.oblige(s, And(Implies(new_in != old[0], g['reset_r'] == 1), Implies(new_out != old[1], g['reset_w'] == 1)), 'a-new-limit-takes-effect-at-once')
            eng.oblige(s, And(z3.ULE(g['reset_r'], 1), z3.ULE(g['reset_w'], 1)), 'quota-is-given-once')
            eng.oblige(s, And(Implies(new_in == old[0], g['reset_r'] == 0), Implies(new_out == old[1], g['reset_w'] == 0)), 'an-unchanged-limit-gives-no-extra-quota')
        o = lambda n: eng.load(s, P(c.S, eng.off('o_opt') + eng.off(n)), ('i', 32))
        eng.oblige(s, And(o('p_in') == c.oin, o('p_out') == c.oout, o('p_pb') == c.opb, o('p_ka') == c.oka), 'the-options-are-remembered')
        eng.oblige(s, g['locked'] == 0, 'the-lock-is-released')


@PROP.job('options-client', 'client')
def j_opt_c(eng):
    opt_jobs(eng, 'client')


@PROP.job('options-server', 'server')
def j_opt_s(eng):
    opt_jobs(eng, 'server')


def trig(eng, kind):
    """being triggered forgets the refusal, so that the connection asks for quota again"""
    st = State()
    o = eng.new_obj(st, 'stream', 'cells', size=eng.off('SZ_M'))
    g = st.ghost
    g.update({'r': BV(0, 8), 'w': BV(0, 8)})
    tok = lambda s, n: eng.load(s, P(o, eng.off(n)), ('i', 32))
    for d, f, n in (('r', 'receive', 'm_rq'), ('w', 'send', 'm_wq')):
        def start(e, s, a, nm_, d=d, n=n):
            e.oblige(s, z3.BoolVal(isinstance(a[0], P) and a[0].obj is o), 'on-this-connection')
            e.oblige(s, tok(s, n) > 0, 'the-refusal-is-forgotten-first')
            add(e, s, d)
            return fresh('started', 1)
        eng.contract(r'.*MessageStream<.*>::try_start_%s\(' % f, start, trusted=False)
    for s, r in eng.call(st, eng.find(r'^vf_trig'), [P(o)]):
        eng.cover(s)
        eng.oblige(s, And(s.ghost['r'] == 1, s.ghost['w'] == 1), 'tries-again')


@PROP.job('trigger-client', 'client')
def j_trig_c(eng):
    trig(eng, 'client')


@PROP.job('trigger-server', 'server')
def j_trig_s(eng):
    trig(eng, 'server')


# ---- the clock that drives the maintenance run ---------------------------------------------------------------------------
PROP.tu('tw', '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/timer_worker.h>
using namespace sofa::pbrpc;
extern "C" void vf_use(TimerWorker* w, const boost::system::error_code& e) { w->start(); w->on_timeout(e); w->stop(); }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_run, TimerWorker, _is_running) OFF(o_dur, TimerWorker, _time_duration) OFF(o_fn, TimerWorker, _work_routine) OFF(o_timer, TimerWorker, _timer) OFF(o_lock, TimerWorker, _timer_lock)
extern "C" const unsigned long SZ = sizeof(TimerWorker);
''')


@PROP.job('clock', 'tw')
def j_clock(eng):
    """while it runs the clock calls its routine once per tick and always sets itself up for the next one"""
    c, st = Ctx(), State()
    c.W = eng.new_obj(st, 'worker', 'cells', size=eng.off('SZ'))
    times(eng)
    C = eng.contract
    g = st.ghost
    g.update({'ran': BV(0, 8), 'armed': BV(0, 8), 'cancelled': BV(0, 8), 'locked': c64(0), 'set': FALSE, 'at': c64(0)})
    run0 = eng.load(st, P(c.W, eng.off('o_run')), ('i', 8))
    dur = eng.load(st, P(c.W, eng.off('o_dur')), ('i', 64))
    st.assume(And(z3.ULE(run0, 1), dur > 0, dur < (1 << 40)))
    C(r'^(int )?pthread_(spin|mutex)_lock|^sofa::pbrpc::(SpinLock|MutexLock)::lock\(', lambda e, s, a, n: (add(e, s, 'locked'), BV(0, 32))[1])
    C(r'^(int )?pthread_(spin|mutex)_unlock|^sofa::pbrpc::(SpinLock|MutexLock)::unlock\(', lambda e, s, a, n: (add(e, s, 'locked', -1), BV(0, 32))[1])

    def fn(e, s, a, n):
        e.oblige(s, And(s.ghost['locked'] == 0, s.ghost['armed'] == 0), 'runs-never-overlap')
        e.oblige(s, And(Not(s.ghost.get('ab', FALSE)), s.ghost.get('hasfn', TRUE)), 'a-cancelled-tick-does-nothing')
        s.ghost['ranat'] = e.load(s, a[1], ('i', 64)) if isinstance(a[1], P) else a[1]
        add(e, s, 'ran')
    C(r'^boost::function1<.*>::operator\(\)\(', fn)

    def hasfn(e, s, a, n):
        r = fresh('hasfn', 1)
        s.ghost['hasfn'] = r
        d = e.demangled(n)
        return z3.If(r, FALSE, TRUE) if 'empty' in d else (r if 'operator bool' in d else Agg([z3.If(r, c64(1), c64(0)), c64(0)]))
    C(r'^boost::(function1|function|function_base)<?.*>?::(operator bool|operator .*\(\) const|empty)', hasfn)

    def aborted(e, s, a, n):
        if 'ab' not in s.ghost:
            s.ghost['ab'] = fresh('aborted', 1)
        return z3.simplify(Not(s.ghost['ab'])) if 'operator!=' in e.demangled(n) else s.ghost['ab']
    C(r'^.*boost::system::operator(==|!=)', aborted)
    C(r'.*boost::asio::error::make_error_code', lambda e, s, a, n: None)
    C(r'^boost::system::error_code::', nop)
    TM = r'^boost::asio::basic_deadline_timer<.*>::'

    def at(rel):
        def h(e, s, a, n):
            k = [x for x in a if isinstance(x, P) and x.obj is not c.W]
            e.oblige(s, s.ghost['locked'] == 1, 'the-timer-is-used-under-its-lock')
            s.ghost['set'] = TRUE
            s.ghost['at'] = e.load(s, a[-1], ('i', 64)) if isinstance(a[-1], P) else a[-1]
            s.ghost['rel'] = rel
            return c64(0)
        return h
    C(TM + r'expires_at\(', at(False))
    C(TM + r'expires_from_now\(', at(True))

    def wait(e, s, a, n):
        e.oblige(s, And(s.ghost['locked'] == 1, s.ghost['set']), 'armed-with-a-new-deadline-under-the-lock')
        add(e, s, 'armed')

    def cancel(e, s, a, n):
        add(e, s, 'cancelled')
        return c64(0)
    C(TM + r'cancel\(', cancel)
    C(r'.*boost::asio::io_service::strand::wrap<|.*boost::asio::strand.*::wrap<', nop)
    C(r'.*boost::asio::detail::wrapped_handler', nop)
    C(r'.*boost::bind<', nop)
    C(r'.*boost::_bi::', nop)
    C(r'.*shared_from_this', nop)
    C(r'^sofa::pbrpc::shared_ptr<.*>::', nop)
    C(r'.*boost::asio::basic_deadline_timer<.*>::async_wait<', wait)
    now0 = lambda s: s.ghost.get('clock', [c64(0)])[0]
    ec = eng.new_obj(st, 'ec', 'cells', size=32)
    for what in ('on_timeout', 'start', 'stop'):
        fnm = eng.find(r'^sofa::pbrpc::TimerWorker::%s\(' % what)
        for s, r in eng.call(st.copy(), fnm, [P(c.W)] + ([P(ec)] if what == 'on_timeout' else [])):
            eng.cover(s)
            g = s.ghost
            one = lambda b: If1(b, BV(1, 8), BV(0, 8))
            running = run0 != 0
            r1 = eng.load(s, P(c.W, eng.off('o_run')), ('i', 8))
            eng.oblige(s, g['locked'] == 0, 'the-lock-is-released')
            if what == 'on_timeout':
                eng.oblige(s, g['armed'] == one(running), 'the-next-tick-is-set-up')
                eng.oblige(s, g['ran'] == one(And(running, Not(g.get('ab', FALSE)), g.get('hasfn', TRUE))), 'the-routine-runs-once-per-tick')
                if 'rel' in g:
                    eng.oblige(s, g['at'] == (dur if g['rel'] else now0(s) + dur), 'ticks-are-one-interval-apart')
                if 'ranat' in g:
                    eng.oblige(s, g['ranat'] == now0(s), 'the-routine-gets-the-time')
            elif what == 'start':
                eng.oblige(s, And(g['armed'] == one(Not(running)), r1 == 1), 'the-first-tick-is-set-up-once')
                if 'rel' in g and g['rel']:
                    eng.oblige(s, g['at'] == dur, 'ticks-are-one-interval-apart')
            else:
                eng.oblige(s, And(g['armed'] == 0, r1 == 0), 'no-tick-is-set-up-after-stop')
