"""T01: a timed call is failed with a timeout once its deadline has passed, never before, and at most once."""
import re
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.cont import *
from vf.maps import *
import props.F01 as F01

PROP = Prop('T01')
PROP.assumptions = ['boost::multi_index_container keeps its elements, unique by id, sorted by expiration; std::set is sorted; std::deque is a sequence',
                    'boost::posix_time arithmetic on microsecond ticks is 64-bit integer arithmetic (times within 2^62 microseconds)',
                    'FastLock provides mutual exclusion', 'RpcControllerImpl::Done completes the call at most once (proved in C01)']
TU = '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/rpc_timeout_manager.h>
using namespace sofa::pbrpc;
extern "C" void vf_use(RpcTimeoutManager* m, const RpcControllerImplPtr& c, const PTime& t) { m->add(c); m->erase(1); m->timer_run(t); c->StartTimer(); }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(o_run, RpcTimeoutManager, _is_running) OFF(o_epoch, RpcTimeoutManager, _epoch_time) OFF(o_next, RpcTimeoutManager, _next_id)
OFF(o_events, RpcTimeoutManager, _events) OFF(o_elock, RpcTimeoutManager, _events_lock) OFF(o_add, RpcTimeoutManager, _add_list)
OFF(o_alock, RpcTimeoutManager, _add_list_lock) OFF(o_era, RpcTimeoutManager, _erase_set) OFF(o_rlock, RpcTimeoutManager, _erase_set_lock)
OFF(e_id, RpcTimeoutManager::Event, id) OFF(e_exp, RpcTimeoutManager::Event, expiration) OFF(e_cntl, RpcTimeoutManager::Event, cntl)
OFF(o_exp, RpcControllerImpl, _expiration) OFF(o_tid, RpcControllerImpl, _timeout_id)
extern "C" const unsigned long SZ = sizeof(RpcTimeoutManager), SZ_E = sizeof(RpcTimeoutManager::Event), SZ_C = sizeof(RpcControllerImpl);
extern "C" const unsigned long E_TIMEOUT = RPC_ERROR_REQUEST_TIMEOUT;
'''
PROP.tu('tm', TU)
TM = r'^sofa::pbrpc::RpcTimeoutManager::'
CT = r'^sofa::pbrpc::RpcControllerImpl::'
BASE = r'^boost::date_time::base_time<.*>::'
INF = (1 << 63) - 1
u64 = z3.BitVecSort(64)


class Ctx:
    pass


def times(eng):
    C = eng.contract
    ld = lambda e, s, p: e.load(s, p, ('i', 64))
    C(BASE + r'is_special\(\) const', lambda e, s, a, n: Or(ld(e, s, a[0]) == c64(INF), ld(e, s, a[0]) == c64(1 << 63), ld(e, s, a[0]) == c64(INF - 1)))
    C(BASE + r'operator-\(boost::posix_time::ptime const&\) const', lambda e, s, a, n: ld(e, s, a[0]) - ld(e, s, a[1]))
    C(BASE + r'operator\+\(boost::posix_time::time_duration const&\) const', lambda e, s, a, n: ld(e, s, a[0]) + ld(e, s, a[1]))
    C(BASE + r'operator-\(boost::posix_time::time_duration const&\) const', lambda e, s, a, n: ld(e, s, a[0]) - ld(e, s, a[1]))
    C(BASE + r'operator<\(', lambda e, s, a, n: ld(e, s, a[0]) < ld(e, s, a[1]))
    C(BASE + r'operator==\(', lambda e, s, a, n: ld(e, s, a[0]) == ld(e, s, a[1]))
    for op, f in (('<=', lambda x, y: x <= y), ('>=', lambda x, y: x >= y), ('>', lambda x, y: x > y), ('!=', lambda x, y: x != y)):
        C(r'^boost::operators_impl::operator%s\(boost::posix_time::ptime const&, boost::posix_time::ptime const&\)' % re.escape(op),
          lambda e, s, a, n, f=f: f(ld(e, s, a[0]), ld(e, s, a[1])))
    C(r'^boost::date_time::time_duration<.*>::ticks\(\) const', lambda e, s, a, n: ld(e, s, a[0]))
    C(r'^boost::date_time::subsecond_duration<boost::posix_time::time_duration, 1000l>::subsecond_duration<',
      lambda e, s, a, n: e.store(s, a[0], ('i', 64), ld(e, s, a[1]) * 1000))
    C(r'^boost::date_time::subsecond_duration<boost::posix_time::time_duration, 1000000l>::subsecond_duration<',
      lambda e, s, a, n: e.store(s, a[0], ('i', 64), ld(e, s, a[1])))
    C(r'^boost::posix_time::seconds::seconds|^boost::posix_time::seconds<', lambda e, s, a, n: e.store(s, a[0], ('i', 64), ld(e, s, a[1]) * 1000000))
    C(r'^boost::posix_time::ptime::ptime\(boost::date_time::special_values\)', lambda e, s, a, n: e.store(s, a[0], ('i', 64), c64(INF - 1) if False else z3.BitVecVal(INF, 64)))

    def now(e, s, a, n):
        t = fresh('now', 64)
        s.assume(And(t > 0, t < (1 << 61)))
        s.ghost.setdefault('clock', [])
        s.ghost['clock'] = s.ghost['clock'] + [t]
        return t
    C(r'^sofa::pbrpc::ptime_now\(\)', now, trusted=False)


def mk(eng):
    c, st = Ctx(), State()
    c.M = eng.new_obj(st, 'mgr', 'cells', size=eng.off('SZ'))
    times(eng)
    o = Obj('addlist', 'elems', stride=eng.off('SZ_E'))
    o.layout = [(eng.off('e_id'), 8), (eng.off('e_exp'), 8), (eng.off('e_cntl'), 8)]
    c.nA = fresh('nadd', 64)
    st.assume(z3.ULT(c.nA, 1 << 40))
    c.addq = SeqV(o, c64(0), c.nA)
    c.addp = P(c.M, eng.off('o_add'))
    put_seq(eng, st, c.addp, c.addq)
    c.X = fresh('X', 64)
    c.EXP = z3.Function('expiration_of', u64, u64)      # an event's id determines its expiration and its call
    c.IDOF = z3.Function('event_of', u64, u64)
    st.ghost.update({'held': ()})
    c.maps = Maps(eng, voff=8, vsize=0)
    c.maps.watch = [c.X]
    c.maps.ordered = True
    c.erap = P(c.M, eng.off('o_era'))
    locks = {eng.off('o_elock'): 'events', eng.off('o_alock'): 'add', eng.off('o_rlock'): 'erase'}

    def lock(e, s, a, n):
        if isinstance(a[0], P) and a[0].obj is c.M and a[0].off in locks:
            k = locks[a[0].off]
            e.oblige(s, z3.BoolVal(k not in s.ghost['held']), 'takes-a-free-lock')
            s.ghost['held'] = s.ghost['held'] + (k,)
        return BV(0, 32)

    def unlock(e, s, a, n):
        if isinstance(a[0], P) and a[0].obj is c.M and a[0].off in locks:
            k = locks[a[0].off]
            e.oblige(s, z3.BoolVal(k in s.ghost['held']), 'releases-what-it-took')
            s.ghost['held'] = tuple(x for x in s.ghost['held'] if x != k)
        return BV(0, 32)
    eng.contract(r'^(int )?pthread_(spin|mutex)_lock|^sofa::pbrpc::(SpinLock|MutexLock)::lock\(', lock)
    eng.contract(r'^(int )?pthread_(spin|mutex)_unlock|^sofa::pbrpc::(SpinLock|MutexLock)::unlock\(', unlock)
    c.held = lambda e, s, k, what: e.oblige(s, z3.BoolVal(k in s.ghost['held']), what)

    def guard(e, s, p):
        if p.obj is c.M:
            c.held(e, s, 'erase', 'the-erase-set-is-touched-only-under-its-lock')
    c.maps.guard = guard
    W = r'^(sofa::pbrpc|boost)::weak_ptr<sofa::pbrpc::RpcControllerImpl>::'

    def wcopy(e, s, a, n):
        e.store(s, a[0], ('ptr',), e.load(s, a[1], ('ptr',)))
        return a[0]
    eng.contract(W + r'(weak_ptr|operator=)', wcopy)
    eng.contract(W + r'~weak_ptr', nop)
    SP = r'^sofa::pbrpc::shared_ptr<.*>::'
    eng.contract(SP + r'(operator->|operator\*|get)\(', lambda e, s, a, n: e.load(s, a[0], ('ptr',)))
    eng.contract(SP + r'~shared_ptr', nop)
    eng.contract(SP + r'operator!', lambda e, s, a, n: ptr_term(e.load(s, a[0], ('ptr',))) == 0)
    eng.contract(SP + r'operator .*\(\) const', lambda e, s, a, n: Agg([ptr_term(e.load(s, a[0], ('ptr',))), c64(0)]))
    return c, st


@PROP.job('timer_run', 'tm')
def j_run(eng):
    """for an arbitrary call X: notified exactly once if it was waiting, not erased and its expiration has come; otherwise not,
    and then it is still waiting afterwards (unless erased)"""
    c, st = mk(eng)
    C = eng.contract
    X = c.X
    inA = fresh('inA', 1)
    ia = fresh('ia', 64)
    E0 = fresh('inE', 1)
    q = c.addq
    f = lambda s, i, o: q.at(eng, s, i, eng.off(o), 8)
    # data invariant (established by add): ids are unique and increasing along the add list; an id names one call and one expiration
    st.assume(Implies(inA, And(z3.ULT(ia, c.nA), f(st, ia, 'e_id') == X)))
    st.assume(Not(And(inA, E0)))
    m0 = c.maps.get(st, c.erap)
    R = z3.Select(m0.pres, X)
    now = fresh('nowt', 64)
    epoch = eng.load(st, P(c.M, eng.off('o_epoch')), ('i', 64))
    for t in (now, epoch):
        st.assume(And(t >= 0, t < (1 << 61)))
    ticks = z3.simplify(now - epoch)
    st.ghost.update({'nX': c64(0), 'evin': E0})
    c.maps.get(st, c.erap)

    def evfacts(e, s, i_, e_, h_):
        s.assume(And(e_ == c.EXP(i_), c.IDOF(h_) == i_))

    def addfacts(s, p):
        i, r = eng.elem_split(p)
        k = f(s, i, 'e_id')
        h = f(s, i, 'e_cntl')
        s.assume(Implies(z3.ULT(i, c.nA), And(f(s, i, 'e_exp') == c.EXP(k), c.IDOF(h) == k)))
        s.assume(Implies(z3.ULT(i, c.nA), And((k == X) == And(inA, i == ia), Implies(inA, z3.ULT(i, ia) == z3.ULT(k, X)))))
    q.obj.addfacts = addfacts

    def it_deref(e, s, a, n):
        p = e.load(s, a[0], ('ptr',))
        if isinstance(p, P) and hasattr(p.obj, 'addfacts'):
            p.obj.addfacts(s, p)
        return p
    C(r'^std::_(Deque|List)_(const_)?iterator<.*>::operator(\*|->)\(\) const$', it_deref)
    DQ = r'^std::(deque|vector)<sofa::pbrpc::RpcTimeoutManager::Event.*>::'

    def dindex(e, s, a, n):
        v = get_seq(e, s, a[0])
        e.oblige(s, z3.ULT(a[1], v.len), 'index-in-range')
        p = elem_ptr(v, a[1])
        if hasattr(v.obj, 'addfacts'):
            v.obj.addfacts(s, p)
        return p
    C(DQ + r'(operator\[\]|at)\(unsigned long\)', dindex)

    def dswap(e, s, a, n):
        for x in a[:2]:
            if isinstance(x, P) and x.obj is c.M:
                c.held(e, s, 'add', 'the-add-list-is-touched-only-under-its-lock')
        d = e.demangled(n)
        v, w = get_seq(e, s, a[0], d), get_seq(e, s, a[1], d)
        put_seq(e, s, a[0], w)
        put_seq(e, s, a[1], v)
    C(DQ + r'swap\(', dswap)

    # the event set
    MI = r'^boost::multi_index::'
    BYID = r'detail::ordered_index_impl<boost::multi_index::member<sofa::pbrpc::RpcTimeoutManager::Event, unsigned long,.*>::'
    BYEXP = r'detail::ordered_index_impl<boost::multi_index::member<sofa::pbrpc::RpcTimeoutManager::Event, long,.*>::'

    def touch(e, s):
        c.held(e, s, 'events', 'the-event-set-is-touched-only-under-its-lock')

    def insert(e, s, a, n):
        touch(e, s)
        if isinstance(a[1], P) and hasattr(a[1].obj, 'addfacts'):
            a[1].obj.addfacts(s, a[1])
        g = lambda o: e.load(s, e.padd(s, a[1], e.off(o)), ('i', 64) if o != 'e_cntl' else ('ptr',))
        i, x, h = g('e_id'), g('e_exp'), ptr_term(g('e_cntl'))
        e.oblige(s, And(x == c.EXP(i), c.IDOF(h) == i), 'keeps-the-event-as-it-was-added')
        e.setghost(s, 'evin', z3.simplify(Or(s.ghost['evin'], i == X)))
        return Agg([fresh('it', 64), BV(1, 8)])
    C(MI + r'(multi_index_container|' + BYID[:-len('.*>::')] + r').*>::insert\(', insert)

    def erase_id(e, s, a, n):
        touch(e, s)
        k = a[1] if isinstance(a[1], z3.BitVecRef) else e.load(s, a[1], ('i', 64))
        was = s.ghost['evin']
        e.setghost(s, 'evin', z3.simplify(And(was, k != X)))
        return z3.If(And(k == X, was), c64(1), fresh('cnt', 64))
    C(r'^.*' + MI[1:] + BYID + r'erase(<unsigned long>)?\(unsigned long', erase_id)

    def enum(s):
        cur = s.ghost.get('evq')
        if cur is not None and z3.eq(cur[1], s.ghost['evin']) and cur[2] == len(s.ghost.get('evlog', ())):
            return cur
        o = Obj('events', 'elems', stride=256)
        o.layout = [(eng.off('e_id'), 8), (eng.off('e_exp'), 8), (eng.off('e_cntl'), 8)]
        n = fresh('nev', 64)
        s.assume(z3.ULT(n, 1 << 40))
        qq = SeqV(o, c64(0), n)
        ix = fresh('ixev', 64)
        g = lambda s2, i, k: qq.at(eng, s2, i, eng.off(k), 8)
        s.assume(Implies(s.ghost['evin'], And(z3.ULT(ix, n), g(s, ix, 'e_id') == X)))
        here = s.ghost['evin']
        bounds = []

        def facts(s2, p):
            i, r = eng.elem_split(p)
            k = g(s2, i, 'e_id')
            s2.assume(Implies(z3.ULT(i, n), And(g(s2, i, 'e_exp') == c.EXP(k), c.IDOF(g(s2, i, 'e_cntl')) == k, (k == X) == And(here, i == ix))))
            for u, b, strict in bounds:
                s2.assume(Implies(z3.ULT(i, n), z3.ULT(i, u) == ((c.EXP(k) < b) if strict else (c.EXP(k) <= b))))
        o.facts = facts
        s.ghost['evq'] = (qq, here, len(s.ghost.get('evlog', ())), ix, bounds)
        return s.ghost['evq']

    def ev_begin(e, s, a, n):
        touch(e, s)
        return elem_ptr(enum(s)[0], c64(0))

    def ev_end(e, s, a, n):
        touch(e, s)
        v = enum(s)[0]
        return elem_ptr(v, v.len)

    def ev_bound(strict):
        def h(e, s, a, n):
            touch(e, s)
            qq, here, _, ix, bounds = enum(s)
            b = e.load(s, a[1], ('i', 64))
            u = fresh('bound', 64)
            s.assume(z3.ULE(u, qq.len))
            s.assume(Implies(here, z3.ULT(ix, u) == ((c.EXP(X) < b) if strict else (c.EXP(X) <= b))))
            bounds.append((u, b, strict))
            return elem_ptr(qq, u)
        return h
    C(MI + BYEXP + r'begin\(\)', ev_begin)
    C(MI + BYEXP + r'end\(\)', ev_end)
    C(r'^.*' + MI[1:] + BYEXP + r'upper_bound<', ev_bound(False))
    C(r'^.*' + MI[1:] + BYEXP + r'lower_bound<', ev_bound(True))

    def erase_range(e, s, a, n):
        touch(e, s)
        qq, here, _, ix, bounds = enum(s)
        if len(a) == 3:
            lo, hi = [x if isinstance(x, P) else e.load(s, x, ('ptr',)) for x in a[1:3]]
            i, j = e.elem_split(lo)[0], e.elem_split(hi)[0]
        else:
            i = e.elem_split(a[1])[0]
            j = i + 1
        e.oblige(s, And(z3.ULE(i, j), z3.ULE(j, qq.len)), 'erases-a-range-of-the-set')
        e.setghost(s, 'evin', z3.simplify(And(here, Not(And(z3.ULE(i, ix), z3.ULT(ix, j))))))
        return elem_ptr(enum(s)[0], c64(0)) if len(a) == 3 else c64(0)
    C(MI + BYEXP + r'erase\(boost::multi_index::detail::bidir', erase_range)
    IT = MI + r'detail::bidir_node_iterator<.*>::'

    def pos(e, s, x):
        return e.load(s, x, ('ptr',))

    def inc(e, s, a, n):
        p = pos(e, s, a[0])
        e.store(s, a[0], ('ptr',), p.add(p.obj.stride))
        return a[0]

    def deref(e, s, a, n):
        p = pos(e, s, a[0])
        i, r = e.elem_split(p)
        e.oblige(s, z3.ULT(i, s.ghost['evq'][0].len), 'iterator-in-range')
        p.obj.facts(s, p)
        return p
    C(IT + r'operator\+\+\(\)', inc)
    C(IT + r'operator\*\(\)', deref)
    C(r'^boost::operators_impl::dereferenceable<boost::multi_index::detail::bidir_node_iterator<.*>::operator->\(', deref)

    def postinc(e, s, a, n):
        p = pos(e, s, a[0])
        e.store(s, a[0], ('ptr',), p.add(p.obj.stride))
        return p
    C(r'^boost::operators_impl::operator\+\+\(boost::multi_index::detail::bidir_node_iterator', postinc)

    def cmp_(neg):
        def h(e, s, a, n):
            p, r = [x if not (isinstance(x, P) and x.obj.kind == 'cells') else pos(e, s, x) for x in a[:2]]
            x = e.elem_split(p)[0] == e.elem_split(r)[0]
            return Not(x) if neg else x
        return h
    C(r'^(bool )?boost::(operators_impl|multi_index::detail)::operator!=(<.*>)?\(boost::multi_index::detail::bidir_node_iterator', cmp_(True))
    C(r'^(bool )?boost::(operators_impl|multi_index::detail)::operator==(<.*>)?\(boost::multi_index::detail::bidir_node_iterator', cmp_(False))

    def notify(e, s, a, n):
        h = ptr_term(e.load(s, a[1], ('ptr',)))
        i = c.IDOF(h)
        e.oblige(s, c.EXP(i) <= ticks, 'never-before-its-deadline')
        e.oblige(s, Implies(i == X, Not(R)), 'no-timeout-for-a-finished-call')
        e.setghost(s, 'nX', z3.simplify(z3.If(i == X, s.ghost['nX'] + 1, s.ghost['nX'])))
    C(TM + r'notify_timeout\(', notify, trusted=False)
    due = c.EXP(X) <= ticks
    run = eng.load(st, P(c.M, eng.off('o_run')), ('i', 8))
    B = lambda x: z3.If(x, c64(1), c64(0))

    def inv(eng, ctx):
        s0 = ctx.st0
        ek = [k for k in s0.ghost if isinstance(k, tuple) and k[0] == 'enum']
        eq = s0.ghost[ek[0]][0] if ek else None
        als = [('nothing', lambda s, e: c64(0))] + loop_iters(eng, ctx, c.addq.obj)
        els = [('nothing', lambda s, e: c64(0), None)]
        if eq is not None:
            ie = eq.obj.watch[0][1]
            els += [(n, g, ie) for n, g in loop_iters(eng, ctx, eq.obj)]
        evq = s0.ghost.get('evq')
        kls = [('nothing', None)]
        if evq is not None:
            kls += loop_iters(eng, ctx, evq[0].obj)
        out = []
        for an, ag in als:
            out.append(('add<=n[%s]' % an, lambda s, e, ag=ag: z3.ULE(ag(s, e), c.nA)))
        for en, eg, ie in els:
            if ie is not None:
                out.append(('era<=n[%s]' % en, lambda s, e, eg=eg: z3.ULE(eg(s, e), eq.len)))
        for an, ag in als:
            for en, eg, ie in els:
                pa = lambda s, e, ag=ag: And(inA, z3.ULT(ia, ag(s, e)))
                pe = (lambda s, e, eg=eg, ie=ie: And(R, z3.ULT(ie, eg(s, e)))) if ie is not None else (lambda s, e: z3.BoolVal(False))
                out.append(('sync[%s,%s]' % (an, en), lambda s, e, pa=pa, pe=pe: Implies(And(inA, R), pa(s, e) == pe(s, e))))
                def state(s, e, pa=pa, pe=pe):
                    ev, nx, mine = s.ghost['evin'], s.ghost['nX'], And(pa(s, e), Not(R))
                    return And(Implies(E0, And(ev == Not(pe(s, e)), nx == 0)), Implies(And(Not(E0), Not(mine)), And(Not(ev), nx == 0)),
                               Implies(mine, And(Implies(ev, nx == 0), Implies(Not(ev), And(nx == 1, due)))))
                out.append(('state[%s,%s]' % (an, en), state))
        n0, ev0 = s0.ghost['nX'], s0.ghost['evin']
        for kn, kg in kls:
            if kg is not None:
                out.append(('nX[%s]' % kn, lambda s, e, kg=kg: And(s.ghost['evin'] == ev0, s.ghost['nX'] == n0 + B(And(evq[1], z3.ULT(evq[3], kg(s, e)))))))
        for kn, kg in kls:
            if kg is not None:
                out.append(('ev<=n[%s]' % kn, lambda s, e, kg=kg: z3.ULE(kg(s, e), evq[0].len)))
                for u, b, st_ in evq[4]:
                    out.append(('ev<=bound[%s]' % kn, lambda s, e, kg=kg, u=u: z3.ULE(kg(s, e), u)))
        return out
    eng.loopspecs.append(('timer_run', inv))
    fn = eng.find(TM + r'timer_run\(')
    np_ = eng.new_obj(st, 'now', 'cells', size=8)
    eng.store(st, P(np_), ('i', 64), now)
    st.assume(z3.ULE(run, 1))
    for s, r in eng.call(st, fn, [P(c.M), P(np_)]):
        eng.cover(s)
        g = s.ghost
        was = Or(inA, E0)
        on = run != 0
        eng.oblige(s, g['nX'] == B(And(on, was, Not(R), due)), 'timed-out-once-iff-due-and-not-finished')
        eng.oblige(s, Implies(on, g['evin'] == And(was, Not(R), Not(due))), 'still-waiting-iff-not-due-and-not-finished')
        v = get_seq(eng, s, c.addp)
        eng.oblige(s, Implies(on, v.len == 0), 'the-add-list-is-taken')
        m = c.maps.get(s, c.erap)
        eng.oblige(s, Implies(on, Not(z3.Select(m.pres, X))), 'the-erase-set-is-taken')
        eng.oblige(s, z3.BoolVal(s.ghost['held'] == ()), 'gives-the-locks-back')


@PROP.job('notify_timeout', 'tm')
def j_notify(eng):
    c, st = mk(eng)
    C = eng.contract
    h = fresh('call', 64)
    st.ghost.update({'done': c64(0), 'era': c64(0), 'tid': BV(0, 8)})
    seq = fresh('seq', 64)
    strm = fresh('stream', 64)
    alive = fresh('alive', 1)

    def lock(e, s, a, n):
        d = e.demangled(n)
        if 'RpcControllerImpl>::lock' in d:
            e.store(s, a[0], ('ptr',), z3.If(alive, h, c64(0)))
        else:
            e.store(s, a[0], ('ptr',), strm)
    C(r'^(sofa::pbrpc|boost)::weak_ptr<.*>::lock\(\) const', lock)
    st.assume(h != 0)
    C(CT + r'SetTimeoutId', lambda e, s, a, n: (e.oblige(s, And(ptr_term(a[0]) == h, s.ghost['done'] == 0), 'this-call'), e.setghost(s, 'tid', z3.If(a[1] == 0, BV(1, 8), BV(0, 8))))[1])

    def done(e, s, a, n):
        e.oblige(s, And(alive, ptr_term(a[0]) == h, a[1] == e.off('E_TIMEOUT')), 'fails-this-call-with-the-timeout-error')
        e.setghost(s, 'done', z3.simplify(s.ghost['done'] + 1))
    C(CT + r'Done\(', done, trusted=False)
    C(CT + r'SequenceId\(\)', lambda e, s, a, n: (e.oblige(s, ptr_term(a[0]) == h, 'this-call'), seq)[1])
    wo = eng.new_obj(st, 'wstream', 'cells', size=16)
    C(CT + r'RpcClientStream\(\)', lambda e, s, a, n: P(wo))

    def era(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == strm, strm != 0, a[1] == seq), 'forgets-this-call-on-its-stream')
        e.setghost(s, 'era', z3.simplify(s.ghost['era'] + 1))
    C(r'^sofa::pbrpc::RpcClientStream::erase_request', era, trusted=False)
    w = eng.new_obj(st, 'weak', 'cells', size=16)
    eng.store(st, P(w), ('ptr',), h)
    for s, r in eng.call(st, eng.find(TM + r'notify_timeout\('), [P(c.M), P(w)]):
        eng.cover(s)
        eng.oblige(s, (s.ghost['done'] == 1) == alive, 'fails-it-once')
        eng.oblige(s, z3.ULE(s.ghost['done'], 1), 'fails-it-once')
        eng.oblige(s, s.ghost['era'] == z3.If(And(alive, strm != 0), c64(1), c64(0)), 'forgets-it-on-its-stream')


@PROP.job('add-erase', 'tm')
def j_add(eng):
    c, st = mk(eng)
    C = eng.contract
    c.C = eng.new_obj(st, 'call', 'cells', size=eng.off('SZ_C'))
    cp = eng.new_obj(st, 'callptr', 'cells', size=16)
    eng.store(st, P(cp), ('ptr',), P(c.C))
    exp = eng.load(st, P(c.C, eng.off('o_exp')), ('i', 64))
    epoch = eng.load(st, P(c.M, eng.off('o_epoch')), ('i', 64))
    nid = eng.load(st, P(c.M, eng.off('o_next')), ('i', 64))
    special = Or(exp == c64(INF), exp == c64(1 << 63), exp == c64(INF - 1))
    st.assume(Or(special, And(exp >= 0, exp < (1 << 61))))
    st.assume(And(epoch >= 0, epoch < (1 << 61), nid != 0, z3.ULT(nid, 1 << 62)))
    k = fresh('k', 64)
    kid = c.addq.at(eng, st, k, eng.off('e_id'), 8)
    # data invariant: ids handed out so far are below the next id (and so is every id in the list)
    st.assume(z3.ULT(k, c.nA))
    st.assume(And(kid != 0, z3.ULT(kid, nid)))
    s0 = st.copy()

    def push(e, s, a, n):
        c.held(e, s, 'add', 'the-add-list-is-touched-only-under-its-lock')
        v = get_seq(e, s, a[0])
        put_seq(e, s, a[0], SeqV(v.obj, v.lo, z3.simplify(v.len + 1)))
        copy_elem(e, s, v, z3.simplify(v.lo + v.len), a[1])
    C(r'^std::(deque|vector)<sofa::pbrpc::RpcTimeoutManager::Event.*>::push_back', push)
    for s, r in eng.call(st, eng.find(TM + r'add\('), [P(c.M), P(cp)]):
        eng.cover(s)
        r = r if z3.is_bool(r) else r == 1
        v = get_seq(eng, s, c.addp)
        tid = eng.load(s, P(c.C, eng.off('o_tid')), ('i', 64))
        at = lambda o: v.at(eng, s, v.len - 1, eng.off(o), 8)
        ok = And(Not(special), exp > epoch)
        eng.oblige(s, r == ok, 'takes-every-call-with-a-deadline-ahead')
        eng.oblige(s, Implies(r, v.len == c.nA + 1), 'appends-one-event')
        eng.oblige(s, Implies(Not(r), And(v.len == c.nA, tid == 0)), 'a-refused-call-has-no-timer')
        eng.oblige(s, Implies(r, And(at('e_exp') == exp - epoch, at('e_cntl') == c.C.addr)), 'the-event-has-this-deadline-and-call')
        eng.oblige(s, Implies(r, And(at('e_id') == tid, tid != 0, z3.UGT(at('e_id'), kid))), 'ids-are-unique-and-increasing')
        eng.oblige(s, Implies(r, z3.ULT(at('e_id'), eng.load(s, P(c.M, eng.off('o_next')), ('i', 64)))), 'later-ids-are-larger')
        eng.oblige(s, v.at(eng, s, k, eng.off('e_id'), 8) == kid, 'earlier-events-kept')
        eng.oblige(s, z3.BoolVal(s.ghost['held'] == ()), 'gives-the-locks-back')
    i = fresh('eid', 64)
    m0 = c.maps.get(s0, c.erap)
    for s, r in eng.call(s0, eng.find(TM + r'erase\('), [P(c.M), i]):
        eng.cover(s)
        m = c.maps.get(s, c.erap)
        eng.oblige(s, z3.Select(m.pres, c.X) == Or(z3.Select(m0.pres, c.X), And(c.X == i, i != 0)), 'remembers-exactly-this-id')
        eng.oblige(s, z3.BoolVal(s.ghost['held'] == ()), 'gives-the-locks-back')


@PROP.job('StartTimer', 'tm')
def j_start(eng):
    c, st = mk(eng)
    c.C = eng.new_obj(st, 'call', 'cells', size=eng.off('SZ_C'))
    t = fresh('timeout', 64)
    st.assume(And(t < (1 << 50)))
    eng.contract(CT + r'Timeout\(\) const', lambda e, s, a, n: t, trusted=False)
    for s, r in eng.call(st, eng.find(CT + r'StartTimer\('), [P(c.C)]):
        eng.cover(s)
        exp = eng.load(s, P(c.C, eng.off('o_exp')), ('i', 64))
        clk = s.ghost.get('clock', [])
        if clk:
            eng.oblige(s, Implies(t > 0, exp == clk[0] + t * 1000), 'deadline-is-start-plus-timeout')
        else:
            eng.oblige(s, t <= 0, 'a-timed-call-reads-the-clock')
        eng.oblige(s, Implies(t <= 0, exp == c64(INF)), 'no-deadline-without-timeout')


PROP.native('client', 'client.cc', args=['finish', '12'], thorough_args=['finish', '400'],
            what='real client against a scripted peer: answers, errors, silence; silent calls time out, none early', **F01.ALL)
