"""Q01: a connection sends its queued messages completely, once and in queue order, and never strands a queued message."""
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.cont import *
import vf.cont
import props.F01 as F01
from props.F01 import f, setf

PROP = Prop('Q01')
PROP.assumptions = ['std::deque behaves as a sequence; shared_ptr keeps the object it was given',
                    'FastLock provides mutual exclusion; only the holder of the send token removes messages from the queue (token: job try_start_send)',
                    'fewer than 2^30 messages and 2^60 bytes are queued at a time',
                    'the size of a message does not change while it is queued',
                    'a message handed to async_send_message is not empty (it starts with a header)',
                    'ReadBuffer::Next hands out the remaining blocks in order (proved in B01)',
                    'boost::asio completes a write of n bytes with at most n bytes sent, in order']
PROP.tu('stream', F01.TU + '''
#include <sofa/pbrpc/buffer.cc>
OFF(o_pmc, MS, _pending_message_count) OFF(o_pds, MS, _pending_data_size) OFF(o_pc, MS, _pending_calls) OFF(o_lock, MS, _pending_lock)
OFF(o_sc, MS, _swapped_calls) OFF(o_smc, MS, _swapped_message_count) OFF(o_sds, MS, _swapped_data_size)
OFF(o_smsg, MS, _sending_message) OFF(o_cookie, MS, _sending_cookie) OFF(o_sent, MS, _sent_size) OFF(o_sdata, MS, _sending_data) OFF(o_ssize, MS, _sending_size)
OFF(PI_msg, MS::PendingItem, message) OFF(PI_cookie, MS::PendingItem, cookie)
extern "C" const unsigned long SZ_PI = sizeof(MS::PendingItem), E_CANCELED = RPC_ERROR_REQUEST_CANCELED, E_BROKEN = RPC_ERROR_CHANNEL_BROKEN, E_CLOSED = RPC_ERROR_CONNECTION_CLOSED;
extern "C" const unsigned long CLOSED = MS::STATUS_CLOSED, CONNECTED = MS::STATUS_CONNECTED, R_SERVER = MS::ROLE_TYPE_SERVER;
''')
MS = r'^sofa::pbrpc::RpcMessageStream<int>::'
DQ = r'^std::deque<sofa::pbrpc::RpcMessageStream<int>::PendingItem, .*>::'
TC = z3.Function('total_count', z3.BitVecSort(64), z3.BitVecSort(64))
BS = z3.Function('block_size', z3.BitVecSort(64), z3.BitVecSort(64))
BIG = 1 << 40


class Q:
    """one of the two queues of the stream"""

    def __init__(self, eng, c, o_calls, o_cnt, o_data, o_buf):
        self.eng, self.c = eng, c
        self.calls, self.cnt, self.data, self.buf = o_calls, o_cnt, o_data, o_buf

    def ptr(self):
        return P(self.c.S, self.eng.off(self.calls))

    def seq(self, s):
        return get_seq(self.eng, s, self.ptr(), 'std::deque<sofa::pbrpc::RpcMessageStream<int>::PendingItem>')

    def key(self):
        return ('sum', self.c.S.id, self.eng.off(self.calls))

    def bounded(self, s):
        d, b = s.ghost[self.key()]
        return And(z3.ULT(self.seq(s).len, 1 << 30), z3.ULT(d, 1 << 60), z3.ULT(b, 1 << 60))

    def inv(self, s):
        e, c = self.eng, self.c
        n = self.seq(s).len
        d, b = s.ghost[self.key()]
        return And(sx(f(e, c, s, self.cnt, 32)) == n, f(e, c, s, self.data, 64) == d, f(e, c, s, self.buf, 64) == b,
                   Implies(n == 0, And(d == 0, b == 0)))


def mk(eng):
    c, st = F01.stream_env(eng)
    c.S.memo['seqname'] = 1
    c.P = Q(eng, c, 'o_pc', 'o_pmc', 'o_pds', 'o_pbs')
    c.W = Q(eng, c, 'o_sc', 'o_smc', 'o_sds', 'o_sbs')
    for q in (c.P, c.W):
        st.ghost[q.key()] = (fresh('dsum', 64), fresh('bsum', 64))
        q.seq(st)
        st.assume(And(q.inv(st), q.bounded(st)))
    st.ghost['locked'] = BV(0, 8)
    st.ghost['closed'] = BV(0, 8)
    st.ghost['error'] = FALSE
    F01.stream_contracts(eng, c)
    queue_contracts(eng, c)
    return c, st


def item(eng, s, v, i):
    return [v.at(eng, s, i, eng.off('PI_msg'), 8), v.at(eng, s, i, eng.off('PI_cookie'), 4)]


def sizes_ok(s, m):
    s.assume(And(z3.ULT(TC(m), 1 << 48), z3.ULT(BS(m), 1 << 48)))


def env_put(eng, c, s):
    """other threads may have queued more messages (at the back, keeping the counters right)"""
    q = c.P
    v = q.seq(s)
    n = fresh('len', 64)
    nd, nb = fresh('dsum', 64), fresh('bsum', 64)
    nv = SeqV(Obj('pend', 'elems', stride=v.obj.stride), v.lo, n)
    nv.obj.layout = v.obj.layout
    keep = [item(eng, s, v, c.x), item(eng, s, nv, c.x)]
    s.assume(And(z3.UGE(n, v.len), z3.ULT(n, 1 << 30), Implies(z3.ULT(c.x, v.len), And(keep[0][0] == keep[1][0], keep[0][1] == keep[1][1]))))
    z = [item(eng, s, v, c64(0)), item(eng, s, nv, c64(0))]
    s.assume(Implies(v.len != 0, And(z[0][0] == z[1][0], z[0][1] == z[1][1])))
    z = [item(eng, s, v, z3.simplify(c.x + 1)), item(eng, s, nv, z3.simplify(c.x + 1))]
    s.assume(Implies(z3.ULT(c.x + 1, v.len), And(z[0][0] == z[1][0], z[0][1] == z[1][1])))
    put_seq(eng, s, q.ptr(), nv)
    eng.setghost(s, q.key(), (nd, nb))
    setf(eng, c, s, q.cnt, 4, z3.Extract(31, 0, n))
    setf(eng, c, s, q.data, 8, nd)
    setf(eng, c, s, q.buf, 8, nb)
    s.assume(And(q.inv(s), q.bounded(s)))


def queue_contracts(eng, c):
    C = eng.contract

    def wrap(name, after):
        base = {}

        def h(e, s, a, n):
            return after(e, s, a, n)
        C(DQ + name, h)

    def key(a):
        if isinstance(a, P) and a.obj is c.S and not a.sym:
            return ('sum', c.S.id, a.off)
        raise Unsupported('queue at an unknown place')

    def ownership(e, s, a):
        if key(a) == c.P.key():
            e.oblige(s, s.ghost['locked'] == 1, 'pending-queue-is-touched-only-under-its-lock')

    def S(e, s, p):
        return get_seq(e, s, p, 'std::deque<sofa::pbrpc::RpcMessageStream<int>::PendingItem>')

    def add(e, s, k, m, sign):
        d, b = s.ghost[k]
        sizes_ok(s, m)
        if sign < 0:
            # the sum over a queue includes each of its elements (sizes are not negative)
            s.assume(And(z3.UGE(d, TC(m)), z3.UGE(b, BS(m))))
        e.setghost(s, k, (z3.simplify(d + TC(m) * sign), z3.simplify(b + BS(m) * sign)))

    def push(front):
        def h(e, s, a, n):
            ownership(e, s, a[0])
            v = S(e, s, a[0])
            idx = z3.simplify(v.lo - 1) if front else z3.simplify(v.lo + v.len)
            put_seq(e, s, a[0], SeqV(v.obj, idx if front else v.lo, z3.simplify(v.len + 1)))
            copy_elem(e, s, v, idx, a[1])
            m = ptr_term(e.load(s, e.padd(s, a[1], e.off('PI_msg')), ('ptr',)))
            e.oblige(s, m != 0, 'queues-a-message')
            add(e, s, key(a[0]), m, 1)
        return h

    def pop(e, s, a, n):
        ownership(e, s, a[0])
        v = S(e, s, a[0])
        e.oblige(s, v.len != 0, 'pop_front-nonempty')
        add(e, s, key(a[0]), item(e, s, v, c64(0))[0], -1)
        nv = SeqV(v.obj, z3.simplify(v.lo + 1), z3.simplify(v.len - 1))
        put_seq(e, s, a[0], nv)
        d, b = s.ghost[key(a[0])]
        s.assume(Implies(nv.len == 0, And(d == 0, b == 0)))

    def swap(e, s, a, n):
        ownership(e, s, a[0])
        ownership(e, s, a[1])
        v, w = S(e, s, a[0]), S(e, s, a[1])
        x, y = s.ghost[key(a[0])], s.ghost[key(a[1])]
        put_seq(e, s, a[0], w)
        put_seq(e, s, a[1], v)
        e.setghost(s, key(a[0]), y)
        e.setghost(s, key(a[1]), x)

    def look(fn):
        def h(e, s, a, n):
            ownership(e, s, a[0])
            return fn(e, s, S(e, s, a[0]))
        return h

    def front(e, s, v):
        e.oblige(s, v.len != 0, 'front-nonempty')
        s.assume(item(e, s, v, c64(0))[0] != 0)     # every queued item holds a message (obligation of every push)
        return elem_ptr(v, c64(0))
    C(DQ + r'(push|emplace)_back', push(False))
    C(DQ + r'(push|emplace)_front', push(True))
    C(DQ + r'pop_front\(\)', pop)
    C(DQ + r'swap\(', swap)
    C(DQ + r'empty\(\) const', look(lambda e, s, v: z3.simplify(v.len == 0)))
    C(DQ + r'size\(\) const', look(lambda e, s, v: v.len))
    C(DQ + r'front\(\)', look(front))

    def lock(e, s, a, n):
        if isinstance(a[0], P) and a[0].obj is c.S:
            e.oblige(s, z3.BoolVal(a[0].off == e.off('o_lock')), 'locks-the-pending-lock')
            e.oblige(s, s.ghost['locked'] == 0, 'not-locked-twice')
            e.setghost(s, 'locked', BV(1, 8))
            env_put(e, c, s)
            e.setghost(s, 'atlock', c.P.seq(s))

    def unlock(e, s, a, n):
        e.oblige(s, s.ghost['locked'] == 1, 'unlocks-what-it-locked')
        e.oblige(s, c.P.inv(s), 'counters-right-when-the-lock-is-released')
        e.setghost(s, 'locked', BV(0, 8))
    C(r'^(int )?pthread_(spin|mutex)_lock|^sofa::pbrpc::(SpinLock|MutexLock)::lock\(', lock)
    C(r'^(int )?pthread_(spin|mutex)_unlock|^sofa::pbrpc::(SpinLock|MutexLock)::unlock\(', unlock)

    def total(fn):
        def h(e, s, a, n):
            p = ptr_term(a[0])
            sizes_ok(s, p)
            return fn(p)
        return h
    C(r'^sofa::pbrpc::ReadBuffer::TotalCount\(\) const', total(TC), trusted=False)
    C(r'^sofa::pbrpc::ReadBuffer::TotalBlockSize\(\) const', total(BS), trusted=False)

    def sp_assign(e, s, a, n):
        e.store(s, a[0], ('ptr',), e.load(s, a[1], ('ptr',)))
        return a[0]
    C(r'^sofa::pbrpc::shared_ptr<sofa::pbrpc::ReadBuffer>::operator=', sp_assign)
    C(r'^(void )?sofa::pbrpc::shared_ptr<sofa::pbrpc::ReadBuffer>::reset\(\)', lambda e, s, a, n: e.store(s, a[0], ('ptr',), c64(0)))
    eng.interfere = lambda e, s, p: interfere(e, c, s, p)


def interfere(e, c, s, p):
    if isinstance(p, P) and p.obj is c.S and p.off in (e.off('o_pmc'), e.off('o_pds'), e.off('o_pbs')) and cval(s.ghost['locked']) == 0:
        env_put(e, c, s)


def msg(eng, st, name):
    """a shared_ptr argument"""
    o = eng.new_obj(st, name, 'cells', size=16)
    p = fresh(name, 64)
    st.assume(p != 0)
    sizes_ok(st, p)
    eng.store(st, P(o), ('ptr',), p)
    return o, p


def same(eng, s, v, i, v0, i0, s0):
    a, b = item(eng, s, v, i), item(eng, s0, v0, i0)
    return And(a[0] == b[0], a[1] == b[1])


@PROP.job('put_into_pending_queue', 'stream')
def j_put(eng):
    c = F01.Ctx()
    x = fresh('x', 64)
    c2, st = _mk(eng, x)
    c = c2
    m, p = msg(eng, st, 'message')
    ck = eng.new_obj(st, 'cookie', 'cells', size=4)
    k = fresh('cookie', 32)
    eng.store(st, P(ck), ('i', 32), k)
    w0 = c.W.seq(st)
    fn = eng.find(MS + r'put_into_pending_queue\(')
    for s, r in eng.call(st, fn, [P(c.S), P(m), P(ck)]):
        eng.cover(s)
        v, v0 = c.P.seq(s), s.ghost['atlock']
        eng.oblige(s, c.P.inv(s), 'pending-counters-describe-the-queue')
        eng.oblige(s, c.W.inv(s), 'swapped-counters-describe-the-queue')
        eng.oblige(s, s.ghost['locked'] == 0, 'lock-released')
        eng.oblige(s, v.len == v0.len + 1, 'one-message-more')
        it = item(eng, s, v, v0.len)
        eng.oblige(s, And(it[0] == p, it[1] == k), 'queued-at-the-back')
        eng.oblige(s, Implies(z3.ULT(x, v0.len), same(eng, s, v, x, v0, x, s)), 'the-others-keep-their-places')
        eng.oblige(s, And(c.W.seq(s).len == w0.len), 'swapped-queue-untouched')


def _mk(eng, x):
    orig = F01.stream_env

    def env(e):
        c, st = orig(e)
        c.x = x
        return c, st
    F01.stream_env = env
    try:
        return mk(eng)
    finally:
        F01.stream_env = orig


@PROP.job('insert_into_pending_queue', 'stream')
def j_insert(eng):
    x = fresh('x', 64)
    c, st = _mk(eng, x)
    m, p = msg(eng, st, 'message')
    ck = eng.new_obj(st, 'cookie', 'cells', size=4)
    k = fresh('cookie', 32)
    eng.store(st, P(ck), ('i', 32), k)
    w0, p0 = c.W.seq(st), c.P.seq(st)
    s0 = st.copy()
    fn = eng.find(MS + r'insert_into_pending_queue\(')
    for s, r in eng.call(st, fn, [P(c.S), P(m), P(ck)]):
        eng.cover(s)
        v = c.W.seq(s)
        eng.oblige(s, c.W.inv(s), 'swapped-counters-describe-the-queue')
        eng.oblige(s, c.P.inv(s), 'pending-counters-describe-the-queue')
        eng.oblige(s, v.len == w0.len + 1, 'one-message-more')
        it = item(eng, s, v, c64(0))
        eng.oblige(s, And(it[0] == p, it[1] == k), 'put-back-at-the-front')
        eng.oblige(s, Implies(z3.ULT(x, w0.len), same(eng, s, v, z3.simplify(x + 1), w0, x, s0)), 'the-others-follow-in-order')
        eng.oblige(s, z3.UGE(c.P.seq(s).len, p0.len), 'pending-queue-keeps-its-messages')


@PROP.job('get_from_pending_queue', 'stream')
def j_get(eng):
    x = fresh('x', 64)
    c, st = _mk(eng, x)
    m = eng.new_obj(st, 'message', 'cells', size=16)
    ck = eng.new_obj(st, 'cookie', 'cells', size=4)
    w0, p0 = c.W.seq(st), c.P.seq(st)
    s0 = st.copy()
    fn = eng.find(MS + r'get_from_pending_queue\(')
    seen = set()
    for s, r in eng.call(st, fn, [P(c.S), P(m), P(ck)]):
        eng.cover(s)
        r = z3.simplify(r)
        seen.add(str(r))
        v, w = c.P.seq(s), c.W.seq(s)
        eng.oblige(s, c.P.inv(s), 'pending-counters-describe-the-queue')
        eng.oblige(s, c.W.inv(s), 'swapped-counters-describe-the-queue')
        eng.oblige(s, s.ghost['locked'] == 0, 'lock-released')
        eng.oblige(s, Implies(Not(r), And(w0.len == 0, p0.len == 0, w.len == 0)), 'reports-empty-only-when-empty')
        got = [ptr_term(eng.load(s, P(m), ('ptr',))), eng.load(s, P(ck), ('i', 32))]
        a = item(eng, s0, w0, c64(0))
        eng.oblige(s, Implies(And(r, w0.len != 0), And(got[0] == a[0], got[1] == a[1], w.len == w0.len - 1)), 'oldest-message-first')
        eng.oblige(s, Implies(And(r, z3.ULT(x + 1, w0.len), z3.ULT(x, w0.len)), same(eng, s, w, x, w0, z3.simplify(x + 1), s0)), 'the-rest-keeps-its-order')
        eng.oblige(s, Implies(And(r, w0.len != 0), z3.UGE(v.len, p0.len)), 'later-messages-stay-queued')
        b = item(eng, s0, p0, c64(0))
        eng.oblige(s, Implies(And(r, w0.len == 0, p0.len != 0), And(got[0] == b[0], got[1] == b[1], z3.UGE(w.len, p0.len - 1))), 'oldest-pending-message-first')
        eng.oblige(s, Implies(And(r, w0.len == 0, z3.ULT(x + 1, p0.len), z3.ULT(x, p0.len)), same(eng, s, w, x, p0, z3.simplify(x + 1), s0)), 'pending-order-kept')
        if 'atlock' in s.ghost:
            pl = s.ghost['atlock']
            it = item(eng, s0, pl, c64(0))
            eng.oblige(s, Implies(And(r, w0.len == 0), And(got[0] == it[0], got[1] == it[1], w.len == pl.len - 1, z3.ULE(v.len, 1 << 30))), 'takes-all-pending-messages')
    eng.oblige(st, z3.BoolVal(len(seen) >= 2), 'both-outcomes')


# ---------------------------------------------------------------- the sender
def message(e, s):
    o = e.new_obj(s, 'msg', 'cells', size=256)
    e.set_vptr(s, o, 'sofa::pbrpc::ReadBuffer')
    s.assume(o.addr != 0)
    sizes_ok(s, o.addr)
    return o


def sender(eng, c, st):
    """contracts for the token holder's side.  Ghost state:
      mine   this thread holds the send token
      owed   a message is queued whose sender has already given up because this thread held the token
      inhand the message taken from the queue whose fate is not settled (0: none), with its cookie
      inflight  a write is in flight"""
    C = eng.contract
    q0 = BV(0, 8)
    st.ghost.update({'mine': q0, 'owed': fresh('owed', 8), 'inhand': c64(0), 'hcookie': fresh('hc', 32), 'inflight': q0, 'pos': c64(0), 'blk': fresh('blk', 64), 'blkstart': c64(0), 'blkend': c64(0), 'sent': c64(0)})
    st.assume(z3.ULE(st.ghost['owed'], 1))

    def settle(e, s, p, k, what):
        e.oblige(s, And(p == s.ghost['inhand'], p != 0), what + '-the-message-taken-from-the-queue')
        e.oblige(s, k == s.ghost['hcookie'], what + '-with-its-own-cookie')
        e.setghost(s, 'inhand', c64(0))

    def get(e, s, a, n):
        g = s.ghost
        e.oblige(s, g['mine'] == 1, 'queue-is-drained-only-with-the-send-token')
        e.oblige(s, g['inhand'] == 0, 'previous-message-was-settled')
        s2 = s.copy()
        o, k, ow = message(e, s), fresh('cookie', 32), fresh('owed', 8)
        p = o.addr
        s.assume(And(z3.ULE(ow, 1), z3.UGT(TC(p), 0)))     # a message is never empty: it starts with a header
        e.store(s, a[1], ('ptr',), P(o))
        e.store(s, a[2], ('i', 32), k)
        e.setghost(s, 'inhand', p)
        e.setghost(s, 'hcookie', k)
        e.setghost(s, 'pos', c64(0))
        e.setghost(s, 'owed', ow)
        e.setghost(s2, 'owed', q0)        # the queue was empty
        return [(s, TRUE), (s2, FALSE)]
    C(MS + r'get_from_pending_queue\(', get, trusted=False)

    def insert(e, s, a, n):
        e.oblige(s, s.ghost['mine'] == 1, 'puts-back-only-with-the-send-token')
        settle(e, s, ptr_term(e.load(s, a[1], ('ptr',))), e.load(s, a[2], ('i', 32)), 'puts-back')
    C(MS + r'insert_into_pending_queue\(', insert, trusted=False)

    def failed(e, s, a, n):
        settle(e, s, ptr_term(e.load(s, a[1], ('ptr',))), a[2], 'reports-failure-of')
        e.setghost(s, 'code', a[0])
    C(r'^vf_on_send_failed', failed)

    def sent(e, s, a, n):
        p = ptr_term(e.load(s, a[0], ('ptr',)))
        e.oblige(s, s.ghost['pos'] == TC(p), 'reports-sent-only-when-every-byte-is-sent')
        settle(e, s, p, a[1], 'reports-sent')
        e.setghost(s, 'sent', z3.simplify(s.ghost['sent'] + 1))
    C(r'^vf_on_sent', sent)

    def sending(e, s, a, n):
        e.oblige(s, And(ptr_term(e.load(s, a[0], ('ptr',))) == s.ghost['inhand'], a[1] == s.ghost['hcookie']), 'asks-about-the-message-taken')
        r = fresh('tosend', 1)
        e.setghost(s, 'wanted', r)
        return r
    C(r'^vf_on_sending', sending)

    def quota(e, s, a, n):
        e.oblige(s, sx(a[1]) == z3.SignExt(32, z3.Extract(31, 0, TC(s.ghost['inhand']))), 'asks-quota-for-the-message')
        q = fresh('quota', 32)
        e.setghost(s, 'quota', q)
        return q
    C(r'^sofa::pbrpc::FlowController::acquire_write_quota', quota)

    def nxt(e, s, a, n):
        p = ptr_term(a[0])
        g = s.ghost
        e.oblige(s, p == g['inhand'], 'next-block-of-the-current-message')
        e.oblige(s, Or(g['pos'] == 0, g['pos'] == g['blkend']), 'next-block-only-when-the-block-is-sent')
        s2 = s.copy()
        s.assume(z3.ULT(g['pos'], TC(p)))
        size = fresh('blk', 32)
        s.assume(And(size > 0, z3.ULE(sx(size), TC(p) - g['pos'])))
        data = fresh('blkdata', 64)
        s.assume(z3.ULT(data, 1 << 62))
        e.store(s, a[1], ('ptr',), data)
        e.store(s, a[2], ('i', 32), size)
        e.setghost(s, 'blk', data)
        e.setghost(s, 'blkstart', g['pos'])
        e.setghost(s, 'blkend', z3.simplify(g['pos'] + sx(size)))
        s2.assume(g['pos'] == TC(p))
        return [(s, TRUE), (s2, FALSE)]
    C(r'^sofa::pbrpc::ReadBuffer::Next\(', nxt, trusted=False)
    C(r'^sofa::pbrpc::ReadBuffer::ByteCount\(\) const', lambda e, s, a, n: s.ghost['blkend'], trusted=False)

    def write(e, s, a, n):
        g = s.ghost
        e.oblige(s, g['mine'] == 1, 'writes-only-with-the-send-token')
        e.oblige(s, g['inflight'] == 0, 'one-write-at-a-time')
        e.oblige(s, g['inhand'] != 0, 'writes-a-message')
        e.oblige(s, ptr_term(a[1]) == g['blk'] + (g['pos'] - g['blkstart']), 'writes-the-first-unsent-byte')
        e.oblige(s, And(sx(a[2]) == g['blkend'] - g['pos'] if a[2].size() == 32 else a[2] == g['blkend'] - g['pos'], a[2] != 0), 'writes-the-rest-of-the-block')
        e.oblige(s, ptr_term(e.load(s, P(c.S, e.off('o_smsg')), ('ptr',))) == g['inhand'], 'keeps-the-message-alive-while-writing')
        e.oblige(s, And(f(e, c, s, 'o_cookie', 32) == g['hcookie'], f(e, c, s, 'o_sent', 64) == g['pos']), 'remembers-what-it-sends')
        e.oblige(s, And(ptr_term(e.load(s, P(c.S, e.off('o_sdata')), ('ptr',))) == ptr_term(a[1]), f(e, c, s, 'o_ssize', 32) == z3.Extract(31, 0, sx(a[2]))), 'remembers-where-it-is')
        e.setghost(s, 'inflight', BV(1, 8))
    C(r'^sofa::pbrpc::RpcByteStream::async_write_some', write)
    C(r'^sofa::pbrpc::shared_ptr<sofa::pbrpc::ReadBuffer>::(operator->|operator\*|get)', lambda e, s, a, n: e.load(s, a[0], ('ptr',)))
    eng.store(st, P(c.S, eng.off('o_fc')), ('ptr',), P(eng.new_obj(st, 'fc', 'cells', size=64)))    # set_flow_controller was called
    eng.interfere = lambda e, s, p: senders_env(e, c, s, p)


def senders_env(e, c, s, p):
    """what other threads may do: queue a message and try to start sending (they find the token taken, or take it)"""
    if not (isinstance(p, P) and p.obj is c.S):
        return
    g = s.ghost
    mine = g['mine'] == 1
    if p.off == e.off('o_stok'):
        # while this thread holds the token nobody else writes it; else others may take or release it
        old = f(e, c, s, 'o_stok', 32)
        t = fresh('tok', 32)
        s.assume(z3.ULE(t, 1))
        setf(e, c, s, 'o_stok', 4, z3.simplify(z3.If(mine, old, t)))
        # a message queued while this thread held the token is this thread's business, unless somebody else takes the token
        ow = fresh('owed', 8)
        s.assume(And(z3.ULE(ow, 1), Implies(mine, z3.UGE(ow, g['owed'])), Implies(Not(mine), z3.ULE(ow, g['owed'])), Implies(And(Not(mine), t == 1), ow == 0),
                     Implies(And(Not(mine), t == 0), Or(ow == g['owed'], ow == 0))))
        e.setghost(s, 'owed', ow)
    elif p.off == e.off('o_pmc'):
        n = fresh('count', 32)
        s.assume(n >= 0)
        ow = fresh('owed', 8)
        s.assume(And(z3.ULE(ow, 1), Implies(mine, z3.UGE(ow, g['owed'])), Implies(Not(mine), z3.ULE(ow, g['owed']))))
        e.setghost(s, 'owed', ow)
        s.assume(Implies(ow == 1, n > 0))      # an owed message is still queued (the swapped queue is empty when this is read)
        setf(e, c, s, 'o_pmc', 4, n)
    elif p.off == e.off('o_status'):
        # a stream may be closed at any time, never reopened
        old = f(e, c, s, 'o_status', 32)
        n = fresh('status', 32)
        s.assume(Or(n == old, n == e.off('CLOSED')))
        setf(e, c, s, 'o_status', 4, n)
    elif p.off == e.off('o_wq'):
        old = f(e, c, s, 'o_wq', 32)
        n = fresh('wq', 32)
        s.assume(Or(n == old, n == 1))
        setf(e, c, s, 'o_wq', 4, n)


def token_ops(eng, c, st):
    """the token itself: taking and releasing it is what the code does with atomic_comp_swap"""
    def cas(e, s, a, old, ex, hit):
        if not (isinstance(a, P) and a.obj is c.S and a.off == e.off('o_stok')):
            raise Unsupported('atomic operation on something else')
        e.oblige(s, Implies(And(hit, ex == 0), s.ghost['mine'] == 1), 'releases-only-its-own-token')
        e.oblige(s, Implies(And(hit, ex == 0), And(s.ghost['inhand'] == 0, s.ghost['inflight'] == 0)), 'nothing-left-in-hand-when-the-token-is-released')
        e.setghost(s, 'mine', z3.simplify(z3.If(hit, z3.If(ex == 1, BV(1, 8), BV(0, 8)), s.ghost['mine'])))
    eng.after_cas = cas


def invs(eng, c):
    def inv(eng, ctx):
        return [('between-rounds', lambda s, e: And(s.ghost['mine'] == 0, s.ghost['inhand'] == 0, s.ghost['inflight'] == 0, z3.ULE(s.ghost['owed'], 1),
                                                    f(eng, c, s, 'o_wq', 32) > 0))]
    eng.loopspecs.append(('try_start_send', inv))


@PROP.job('try_start_send', 'stream')
def j_send(eng):
    x = fresh('x', 64)
    c, st = _mk(eng, x)
    sender(eng, c, st)
    token_ops(eng, c, st)
    invs(eng, c)
    # a message may have been queued while the token was held before this call (owed)
    st.assume(z3.ULE(f(eng, c, st, 'o_stok', 32), 1))
    fn = eng.find(MS + r'try_start_send\(\)')
    kinds = set()
    for s, r in eng.call(st, fn, [P(c.S)]):
        eng.cover(s)
        r = z3.simplify(r)
        kinds.add(str(r))
        g = s.ghost
        eng.oblige(s, r == (g['inflight'] == 1), 'reports-whether-a-write-was-started')
        eng.oblige(s, Implies(r, And(g['mine'] == 1, f(eng, c, s, 'o_stok', 32) == 1)), 'keeps-the-token-while-writing')
        eng.oblige(s, Implies(Not(r), And(g['mine'] == 0, g['inhand'] == 0)), 'no-message-lost')
        free = f(eng, c, s, 'o_stok', 32) == 0
        live = f(eng, c, s, 'o_status', 32) == eng.off('CONNECTED')
        eng.oblige(s, Implies(And(Not(r), free, live, f(eng, c, s, 'o_wq', 32) > 0), g['owed'] == 0), 'no-queued-message-is-stranded')
        if 'code' in g:
            eng.oblige(s, g['code'] == eng.off('E_CANCELED'), 'cancelled-message-reports-cancelled')
    eng.oblige(st, z3.BoolVal(len(kinds) >= 1), 'outcomes')


@PROP.job('on_write_some', 'stream')
def j_written(eng):
    x = fresh('x', 64)
    c, st = _mk(eng, x)
    sender(eng, c, st)
    token_ops(eng, c, st)
    g = st.ghost
    n = fresh('n', 64)
    mo = message(eng, st)
    m = mo.addr
    pos, start, end, blk = (fresh(k, 64) for k in ('pos', 'bstart', 'bend', 'blk'))
    st.assume(And(m != 0, z3.ULE(start, pos), z3.ULT(pos, end), z3.ULE(end, TC(m)), z3.ULT(end - start, 1 << 31), z3.ULT(blk, 1 << 62), z3.ULE(n, end - pos)))
    g.update({'mine': BV(1, 8), 'inhand': m, 'pos': pos, 'blk': blk, 'blkstart': start, 'blkend': end, 'inflight': BV(0, 8), 'error': z3.Bool('io_error'), 'restart': c64(0), 'rstart': c64(0)})
    # what was recorded when the write was issued (obligations of every async_write_some), the I/O having sent n more bytes
    eng.store(st, P(c.S, eng.off('o_smsg')), ('ptr',), P(mo))
    setf(eng, c, st, 'o_cookie', 4, g['hcookie'])
    setf(eng, c, st, 'o_sent', 8, pos)
    eng.store(st, P(c.S, eng.off('o_sdata')), ('ptr',), z3.simplify(blk + (pos - start)))
    setf(eng, c, st, 'o_ssize', 4, z3.simplify(z3.Extract(31, 0, end - pos)))
    setf(eng, c, st, 'o_stok', 4, BV(1, 32))
    g['pos'] = z3.simplify(pos + n)     # the I/O sent n more bytes

    def start_send(e, s, a, nm):
        e.oblige(s, And(s.ghost['mine'] == 0, s.ghost['inhand'] == 0), 'token-free-before-the-next-message')
        e.setghost(s, 'restart', c64(1))
        return fresh('started', 1)
    eng.contract(MS + r'try_start_send\(\)', start_send, trusted=False)

    def start_recv(e, s, a, nm):
        e.setghost(s, 'rstart', c64(1))
        return fresh('rstarted', 1)
    eng.contract(MS + r'try_start_receive\(\)', start_recv, trusted=False)
    eng.interfere = lambda e, s, p: senders_env(e, c, s, p)
    er = eng.new_obj(st, 'ec', 'cells', size=16)
    st0 = f(eng, c, st, 'o_status', 32)
    st.assume(Or(st0 == eng.off('CONNECTED'), st0 == eng.off('CLOSED')))     # a write was issued
    fn = eng.find(MS + r'on_write_some\(')
    paths = 0
    for s, r in eng.call(st, fn, [P(c.S), P(er), n]):
        eng.cover(s)
        paths += 1
        g = s.ghost
        err, cl = g['error'], g['closed'] == 1
        quiet = f(eng, c, s, 'o_status', 32) == eng.off('CLOSED')
        eng.oblige(s, Or(quiet, g['inflight'] == 1, g['sent'] == 1), 'goes-on-sending-until-the-message-is-complete')
        eng.oblige(s, Implies(g['sent'] == 1, And(g['mine'] == 0, g['restart'] == 1, g['inhand'] == 0)), 'then-turns-to-the-next-message')
        eng.oblige(s, Implies(And(g['sent'] == 1, f(eng, c, s, 'o_role', 32) == eng.off('R_SERVER')), g['rstart'] == 1), 'server-resumes-receiving')
        eng.oblige(s, Implies(g['inflight'] == 1, And(g['mine'] == 1, g['inhand'] == m, Not(err))), 'keeps-the-token-while-writing')
        if 'code' in g:
            eng.oblige(s, And(g['code'] == eng.off('E_BROKEN'), cl, err), 'write-error-fails-the-message-and-closes')
        else:
            eng.oblige(s, Implies(cl, quiet), 'closing')
            eng.oblige(s, Implies(And(err, Not(quiet)), FALSE), 'write-error-is-never-ignored')
    eng.oblige(st, z3.BoolVal(paths >= 4), 'paths')


@PROP.job('async_send_message', 'stream')
def j_async(eng):
    x = fresh('x', 64)
    c, st = _mk(eng, x)
    st.ghost.update({'put': c64(0), 'failed': c64(0), 'start': c64(0)})
    m, p = msg(eng, st, 'message')
    ck = eng.new_obj(st, 'cookie', 'cells', size=4)
    k = fresh('cookie', 32)
    eng.store(st, P(ck), ('i', 32), k)
    same_ = lambda e, s, a, b: And(ptr_term(e.load(s, a, ('ptr',))) == p, (e.load(s, b, ('i', 32)) if is_ptr(b) else b) == k)

    def put(e, s, a, n):
        e.oblige(s, And(same_(e, s, a[1], a[2]), s.ghost['put'] == 0), 'queues-the-message-once')
        e.setghost(s, 'put', c64(1))

    def failed(e, s, a, n):
        e.oblige(s, And(same_(e, s, a[1], a[2]), a[0] == e.off('E_CLOSED')), 'fails-the-message-as-closed')
        e.setghost(s, 'failed', z3.simplify(s.ghost['failed'] + 1))

    def start(e, s, a, n):
        e.oblige(s, s.ghost['put'] == 1, 'starts-sending-after-queueing')
        e.setghost(s, 'start', c64(1))
        return fresh('r', 1)
    eng.contract(MS + r'put_into_pending_queue\(', put, trusted=False)
    eng.contract(r'^vf_on_send_failed', failed)
    eng.contract(MS + r'try_start_send\(\)', start, trusted=False)

    def env(e, s, pt):
        if isinstance(pt, P) and pt.obj is c.S and pt.off == e.off('o_status'):
            n = fresh('status', 32)
            s.assume(Or(n == f(e, c, s, 'o_status', 32), n == e.off('CLOSED')))
            setf(e, c, s, 'o_status', 4, n)
    eng.interfere = env
    st0 = f(eng, c, st, 'o_status', 32)
    fn = eng.find(MS + r'async_send_message\(')
    for s, r in eng.call(st, fn, [P(c.S), P(m), P(ck)]):
        eng.cover(s)
        g = s.ghost
        eng.oblige(s, g['put'] + g['failed'] == 1, 'either-queued-or-failed-exactly-once')
        eng.oblige(s, g['put'] == g['start'], 'a-queued-message-starts-the-sender')
        eng.oblige(s, Implies(g['failed'] == 1, f(eng, c, s, 'o_status', 32) == eng.off('CLOSED')), 'fails-only-when-closed')


PROP.native('client', 'client.cc', args=['outgoing', '10'], thorough_args=['outgoing', '300'],
            what='real client against a scripted peer: requests of all sizes arrive complete, once each, uncorrupted', **F01.ALL)
