"""N01: a connection is opened once, closed once and for good, and the close is reported once."""
import re
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.smart import *
from props.V01 import log, one, tru, Ctx, Z8
import props.F01 as F01

PROP = Prop('N01')
PROP.assumptions = ['shared_ptr and boost::function keep what they are given and call it', 'boost::asio calls a completion handler once, with the outcome',
                    'async_connect() is called at most once per stream (proved for its only caller in M01), and never on a stream of the server']
PROP.native('conn', 'conn.cc', repo=['common.cc', 'common_internal.cc', 'rpc_endpoint.cc', 'rpc_error_code.cc'], args=['2'], thorough_args=['60'],
            what='real connections over loopback sockets, closed at every point: before, while and after they open, by several threads, by the connect timeout, refused, without a peer')
If1 = z3.If
PROP.tu('bs', '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/rpc_byte_stream.h>
using namespace sofa::pbrpc;
extern "C" bool vf_on_connected(void*); extern "C" void vf_on_closed(void*); extern "C" bool vf_trigger_receive(void*); extern "C" bool vf_trigger_send(void*);
struct TS : public RpcByteStream {
  TS(IOService& s, const RpcEndpoint& e) : RpcByteStream(s, e) {}
  virtual bool trigger_receive() { return vf_trigger_receive(this); } virtual bool trigger_send() { return vf_trigger_send(this); }
  virtual bool on_connected() { return vf_on_connected(this); } virtual void on_closed() { vf_on_closed(this); }
  virtual void on_read_some(const boost::system::error_code&, std::size_t) {} virtual void on_write_some(const boost::system::error_code&, std::size_t) {}
};
extern "C" void vf_use(TS* t, const boost::system::error_code& e, const std::string& r, char* p, size_t n) { t->close(r); t->on_connect_timeout(e); t->async_connect(); t->update_remote_endpoint(); t->set_socket_connected();
  t->async_read_some(p, n); t->async_write_some(p, n); t->on_connect(e); t->reset_ticks(n, true); }
extern "C" void vf_new(void* p, IOService& s, const RpcEndpoint& e) { new (p) TS(s, e); }
extern "C" int vf_is(TS* t) { return (t->is_connecting() ? 1 : 0) | (t->is_connected() ? 2 : 0) | (t->is_closed() ? 4 : 0); }
typedef void (RpcByteStream::*PM)(const boost::system::error_code&, std::size_t);
PM vf_cb_async_read_some() { return &RpcByteStream::on_read_some; }
PM vf_cb_async_write_some() { return &RpcByteStream::on_write_some; }
#define OFF(n, f) extern "C" const unsigned long n = __builtin_offsetof(RpcByteStream, f);
OFF(o_st, _status) OFF(o_to, _connect_timeout) OFF(o_sock, _socket) OFF(o_timer, _timer) OFF(o_rep, _remote_endpoint) OFF(o_lep, _local_endpoint) OFF(o_nd, _no_delay) OFF(o_ticks, _ticks) OFF(o_lrw, _last_rw_ticks) OFF(o_err, _error_message)
extern "C" const unsigned long SZ = sizeof(TS), SZ_EP = sizeof(RpcEndpoint), K_INIT = RpcByteStream::STATUS_INIT, K_CING = RpcByteStream::STATUS_CONNECTING, K_CED = RpcByteStream::STATUS_CONNECTED, K_CLOSED = RpcByteStream::STATUS_CLOSED;
''')
B = r'^sofa::pbrpc::RpcByteStream::'


def stream(eng, opener):
    """a stream whose state other threads change too: closed by anyone at any time, once; `opener`: this thread is the only one to open it"""
    c, st = Ctx(), State()
    smart(eng)
    C = eng.contract
    K = {k: BV(eng.off('K_' + k), 32) for k in ('INIT', 'CING', 'CED', 'CLOSED')}
    c.K = K
    rank = lambda v: If1(v == K['INIT'], BV(0, 8), If1(v == K['CING'], BV(1, 8), If1(v == K['CED'], BV(2, 8), BV(3, 8))))
    c.S = eng.new_obj(st, 'stream', 'cells', size=eng.off('SZ'))
    eng.set_vptr(st, c.S, 'TS')
    c.status = lambda s: eng.load(s, P(c.S, eng.off('o_st')), ('i', 32))
    s0 = c.status(st)
    valid = lambda v: Or(*[v == k for k in K.values()])
    st.assume(valid(s0))
    c.s0 = s0
    st.assume(z3.ULE(eng.load(st, P(c.S, eng.off('o_nd')), ('i', 8)), 1))
    g = st.ghost
    # did: this thread closed it; foreign: closed by another; told: on_closed called by this thread
    g.update({'did': Z8, 'opened': Z8, 'told': Z8, 'shut': Z8, 'recv': Z8, 'send': Z8, 'up': Z8, 'connects': Z8, 'waits': Z8, 'cancels': Z8, 'upok': FALSE, 'bad': FALSE, 'nd': FALSE, 'lep': FALSE, 'sel': s0, 'lastbind': []})
    isst = lambda p: isinstance(p, P) and p.obj is c.S and p.off == eng.off('o_st')

    def env(e, s, p):
        if isst(p):
            old = c.status(s)
            v = fresh('status', 32)
            # what others may do: close it; open it further, unless that is this thread's business
            s.assume(Or(v == old, v == K['CLOSED'], And(z3.BoolVal(not opener), valid(v), z3.UGE(rank(v), rank(old)))))
            e.wst(s, c.S).cells[p.off] = (4, v)

    def step(e, s, old, new):
        e.oblige(s, And(valid(new), Or(old == new, z3.UGT(rank(new), rank(old)))), 'a-connection-never-goes-back-to-an-earlier-state')
        e.setghost(s, 'did', z3.simplify(s.ghost['did'] + one(And(new == K['CLOSED'], old != K['CLOSED']))))
        e.setghost(s, 'opened', z3.simplify(s.ghost['opened'] + one(And(new == K['CED'], old != K['CED']))))

    def store(e, s, p, v):
        if isst(p):
            env(e, s, p)
            step(e, s, c.status(s), v)
    eng.interfere = env
    eng.on_store = store
    eng.after_swap = lambda e, s, p, old, new: step(e, s, old, new) if isst(p) else None
    eng.after_cas = lambda e, s, p, old, new, hit: step(e, s, old, If1(hit, new, old)) if isst(p) else None
    c.env = env
    me = lambda p, o=0: isinstance(p, P) and p.obj is c.S and (not o or p.off == eng.off(o))

    def on_closed(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(me(a[0])), s.ghost['did'] == 1, s.ghost['told'] == 0, c.status(s) == K['CLOSED']), 'reported-by-the-one-that-closed-it-once')
        log(e, s, 'told')
    C(r'^vf_on_closed$', on_closed)

    def on_connected(e, s, a, n):
        e.oblige(s, And(s.ghost['nd'], s.ghost['lep'], s.ghost['recv'] == 0, s.ghost['opened'] == 0, Not(s.ghost['bad'])), 'prepared-before-it-is-open')
        r = fresh('up', 1)
        log(e, s, 'up')
        e.setghost(s, 'upok', r)
        return r
    C(r'^vf_on_connected$', on_connected)

    def trig(k):
        def h(e, s, a, n):
            e.oblige(s, And(s.ghost['opened'] == 1, s.ghost['upok']), 'traffic-starts-when-it-is-open')
            log(e, s, k)
            return fresh('started', 1)
        return h
    C(r'^vf_trigger_receive$', trig('recv'))
    C(r'^vf_trigger_send$', trig('send'))
    # boost::asio
    SO = r'.*boost::asio::(basic_socket|basic_stream_socket|basic_io_object)<.*>::'
    c.ec = eng.new_obj(st, 'ec', 'cells', size=16)
    c.failed, c.aborted = fresh('failed', 1), fresh('aborted', 1)
    st.assume(Implies(c.aborted, c.failed))
    g['ec%d' % c.ec.id] = c.failed

    def ec_set(e, s, p):
        r = fresh('ok', 1)
        s.ghost['ec%d' % p.obj.id] = Not(r)
        e.setghost(s, 'bad', Or(s.ghost['bad'], Not(r)))
        return r
    C(r'^boost::system::error_code::error_code\(\)', lambda e, s, a, n: s.ghost.update({'ec%d' % a[0].obj.id: FALSE}))
    C(r'^boost::system::error_code::(operator bool|operator .*\(\) const)', lambda e, s, a, n: s.ghost.setdefault('ec%d' % a[0].obj.id, fresh('ec', 1)) if 'bool' in e.demangled(n) else Agg([z3.If(s.ghost.setdefault('ec%d' % a[0].obj.id, fresh('ec', 1)), c64(1), c64(0)), c64(0)]))
    C(r'^boost::system::error_code::message', lambda e, s, a, n: set_str(e, s, a[0], ASym('msg'), c64(3)))
    C(r'^.*boost::system::operator(==|!=)', lambda e, s, a, n: c.aborted if '==' in e.demangled(n) else Not(c.aborted))
    C(r'.*boost::asio::error::make_error_code', nop)
    C(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(9)))

    def nodelay(e, s, a, n):
        s.ghost['ndv'] = tru(a[1])
        s.ghost['ndo'] = a[0]
    C(r'^boost::asio::detail::socket_option::boolean<.*>::boolean\(bool\)', nodelay)

    def setopt(e, s, a, n):
        ec_set(e, s, a[-1])
        e.setghost(s, 'nd', And(s.ghost.get('ndv', FALSE) == (e.load(s, P(c.S, e.off('o_nd')), ('i', 8)) != 0), z3.BoolVal(any(me(x, 'o_sock') for x in a))))
        return None
    C(SO + r'set_option<', setopt)
    EPN = eng.off('SZ_EP')

    def endpoint(k):
        def h(e, s, a, n):
            e.oblige(s, z3.BoolVal(me(a[1], 'o_sock')), 'of-its-own-socket')
            ec_set(e, s, a[-1])
            v = [fresh(k, 64) for _ in range((EPN + 7) // 8)]
            s.ghost[k] = v
            s.ghost['ret' + k] = a[0].obj.id
            for i, x in enumerate(v):
                if (i + 1) * 8 <= EPN:
                    e.store(s, a[0].add(8 * i) if hasattr(a[0], 'add') else P(a[0].obj, a[0].off + 8 * i), ('i', 64), x)
                else:
                    e.store(s, P(a[0].obj, a[0].off + 8 * i), ('i', 32), z3.Extract(31, 0, x))
        return h
    C(SO + r'local_endpoint\(', endpoint('le'))
    C(SO + r'remote_endpoint\(', endpoint('re'))

    def epassign(e, s, a, n):
        for k, o in (('le', 'o_lep'), ('re', 'o_rep')):
            if me(a[0], o):
                ok = isinstance(a[1], P) and s.ghost.get('ret' + k) == a[1].obj.id
                s.ghost['set' + k] = ok
                if k == 'le':
                    e.setghost(s, 'lep', z3.BoolVal(bool(ok)))
        return a[0]
    C(r'^boost::asio::ip::basic_endpoint<.*>::operator=\(', epassign)
    C(r'^boost::asio::ip::basic_endpoint<.*>::basic_endpoint\(\)', nop)
    C(r'^(bool )?boost::asio::ip::operator(==|!=)<?.*\(boost::asio::ip::basic_endpoint', lambda e, s, a, n: fresh('noep', 1))
    C(r'^(bool )?boost::asio::ip::operator(==|!=)\(', lambda e, s, a, n: fresh('noep', 1))

    def shutdown(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(any(me(x, 'o_sock') for x in a)), s.ghost['did'] == 1), 'its-socket-is-shut-down-when-it-is-closed')
        log(e, s, 'shut')
        return None
    C(SO + r'shutdown\(', shutdown)

    def snprintf(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(me(a[0], 'o_err')), z3.ULE(a[1], 128)), 'the-reason-fits-its-place')
        return fresh('printed', 32)
    C(r'^snprintf$', snprintf)
    c.bound = {}

    def bind(e, s, a, n):
        fn = [str(x.name) for x in a if isinstance(x, FnP)]
        for x in a:
            if isinstance(x, Agg):
                fn += [str(y.name) for y in x.vals if isinstance(y, FnP)] + ['v%s' % z3.simplify(y) for y in x.vals if not isinstance(y, FnP) and z3.is_bv_value(z3.simplify(y))]
        s.ghost['lastbind'] = fn
        s.ghost['bindargs'] = list(a)
        s.ghost['bindn'] = e.demangled(n)
    C(r'^(boost::_bi::.* |.* )?boost::bind<', bind)

    def aconnect(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(me(a[0], 'o_sock') and me(a[1], 'o_rep')), s.ghost['connects'] == 0), 'connects-its-socket-to-its-remote-endpoint')
        e.oblige(s, z3.BoolVal(any('on_connectERK' in x for x in s.ghost['lastbind'])), 'the-outcome-is-handled-by-the-stream')
        log(e, s, 'connects')
    C(r'.*boost::asio::basic_socket<.*>::async_connect<', aconnect)
    TM = r'^boost::asio::basic_deadline_timer<.*>::'
    C(r'^boost::posix_time::(milliseconds|subsecond_duration<boost::posix_time::time_duration, 1000l?u?>)', nop)

    def expires(e, s, a, n):
        p = a[-1]
        s.ghost['expires'] = e.load(s, p, ('i', 64)) if isinstance(p, P) else p
        return c64(0)
    C(TM + r'expires_from_now\(', expires)

    def wait(e, s, a, n):
        e.oblige(s, z3.BoolVal(me(a[0], 'o_timer') and any('on_connect_timeout' in x for x in s.ghost['lastbind'])), 'the-timeout-is-handled-by-the-stream')
        e.oblige(s, s.ghost['expires'] == 1000 * eng.load(s, P(c.S, eng.off('o_to')), ('i', 64)) if 'expires' in s.ghost else FALSE, 'waits-for-the-connect-timeout')
        log(e, s, 'waits')
    C(r'.*boost::asio::basic_deadline_timer<.*>::async_wait<', wait)

    def cancel(e, s, a, n):
        e.oblige(s, z3.BoolVal(me(a[0], 'o_timer')), 'its-own-timer')
        log(e, s, 'cancels')
        return c64(0)
    C(TM + r'cancel\(', cancel)
    return c, st


def closing(eng, c, s, will):
    """what holds at the end when this thread wants it closed exactly if `will`"""
    g = s.ghost
    eng.oblige(s, And(g['told'] == g['did'], g['shut'] == g['did'], z3.ULE(g['did'], 1)), 'shut-down-and-reported-if-and-only-if-this-closed-it')
    eng.oblige(s, Implies(will, c.status(s) == c.K['CLOSED']), 'closed-when-it-has-to-be')
    eng.oblige(s, Implies(Not(will), g['did'] == 0), 'not-closed-without-a-reason')


@PROP.job('close', 'bs')
def j_close(eng):
    """closing: whoever comes first does it and reports it, everybody else does nothing"""
    c, st = stream(eng, False)
    r = eng.new_obj(st, 'reason', 'cells', size=32)
    set_str(eng, st, P(r), ASym('reason'), fresh('rlen', 64))
    for s, v in eng.call(st, eng.find(B + r'close\('), [P(c.S), P(r)]):
        eng.cover(s)
        closing(eng, c, s, TRUE)
        eng.oblige(s, And(s.ghost['recv'] == 0, s.ghost['send'] == 0, s.ghost['opened'] == 0), 'nothing-is-started')


@PROP.job('connect', 'bs')
def j_connect(eng):
    """opening: once, and not at all when it was closed before; watched by the connect timeout if one is set"""
    c, st = stream(eng, True)
    st.assume(Or(c.s0 == c.K['INIT'], c.s0 == c.K['CLOSED']))
    to = eng.load(st, P(c.S, eng.off('o_to')), ('i', 64))
    st.assume(And(to < 1 << 53, to >= -1))
    for s, v in eng.call(st, eng.find(B + r'async_connect\('), [P(c.S)]):
        eng.cover(s)
        g = s.ghost
        eng.oblige(s, g['did'] == 0, 'opening-does-not-close')
        eng.oblige(s, Implies(c.s0 == c.K['CLOSED'], And(c.status(s) == c.K['CLOSED'], g['connects'] == 0, g['waits'] == 0)), 'a-closed-one-is-not-opened')
        eng.oblige(s, Implies(c.status(s) != c.K['CLOSED'], And(c.status(s) == c.K['CING'], g['connects'] == 1)), 'connecting')
        eng.oblige(s, g['waits'] == one(And(g['connects'] == 1, to > 0)), 'watched-by-the-connect-timeout-if-there-is-one')


@PROP.job('connect-timeout', 'bs')
def j_timeout(eng):
    """the connect timeout closes what is still connecting, and nothing else"""
    c, st = stream(eng, False)
    seen = []

    def env(e, s, p):
        c.env(e, s, p)
        if isinstance(p, P) and p.obj is c.S and p.off == e.off('o_st'):
            s.ghost.setdefault('first', c.status(s))
    eng.interfere = env
    for s, v in eng.call(st, eng.find(B + r'on_connect_timeout\('), [P(c.S), P(c.ec)]):
        eng.cover(s)
        will = And(s.ghost.get('first', c.s0) == c.K['CING'], Not(c.aborted))
        closing(eng, c, s, will)
        eng.oblige(s, And(s.ghost['recv'] == 0, s.ghost['send'] == 0, s.ghost['opened'] == 0), 'nothing-is-started')


@PROP.job('connected', 'bs')
def j_connected(eng):
    """the outcome of connecting: opened and traffic started, or closed with everything told; nothing when it was closed meanwhile"""
    outcome(eng, 'on_connect')


@PROP.job('accepted', 'bs')
def j_accepted(eng):
    """the same for a connection the server accepted"""
    outcome(eng, 'set_socket_connected')


def outcome(eng, what):
    if 1:
        c, st = stream(eng, True)
        st.assume(Or(c.s0 == c.K['CING' if what == 'on_connect' else 'INIT'], c.s0 == c.K['CLOSED']))
        fail = c.failed if what == 'on_connect' else FALSE
        for s, v in eng.call(st, eng.find(B + what + r'\('), [P(c.S)] + ([P(c.ec)] if what == 'on_connect' else [])):
            eng.cover(s)
            g = s.ghost
            bad = Or(fail, g['bad'], And(g['up'] == 1, Not(g['upok'])))
            closed = c.status(s) == c.K['CLOSED']
            eng.oblige(s, And(g['told'] == g['did'], g['shut'] == g['did'], z3.ULE(g['did'], 1)), what + ':shut-down-and-reported-if-and-only-if-this-closed-it')
            eng.oblige(s, Implies(g['did'] == 1, bad), what + ':not-closed-without-a-reason')
            eng.oblige(s, Implies(And(bad, c.s0 != c.K['CLOSED']), closed), what + ':a-failure-closes-it')
            eng.oblige(s, Implies(c.s0 == c.K['CLOSED'], And(closed, g['recv'] == 0, g['send'] == 0)), what + ':a-closed-one-is-not-opened')
            eng.oblige(s, Implies(Not(closed), And(g['opened'] == 1, c.status(s) == c.K['CED'])), what + ':open')
            eng.oblige(s, And(g['recv'] == g['opened'], g['send'] == g['opened']), what + ':traffic-starts-exactly-when-it-is-opened')
            eng.oblige(s, g['cancels'] == (g['opened'] if what == 'on_connect' else Z8), what + ':the-connect-timeout-is-called-off')
            eng.oblige(s, Implies(g['opened'] == 1, And(Not(bad), g['lep'])), what + ':opened-with-everything-set-up')


@PROP.job('peer', 'bs')
def j_peer(eng):
    """the remote endpoint is taken from the socket; without one the connection is closed"""
    c, st = stream(eng, False)
    for s, v in eng.call(st, eng.find(B + r'update_remote_endpoint\('), [P(c.S)]):
        eng.cover(s)
        closing(eng, c, s, s.ghost['bad'])
        eng.oblige(s, z3.BoolVal(bool(s.ghost.get('setre'))), 'the-remote-endpoint-is-that-of-the-socket')


@PROP.job('state', 'bs')
def j_state(eng):
    """a new stream is in its first state; the state reported is the state"""
    c, st = stream(eng, False)
    eng.interfere = None
    for s, v in eng.call(st.copy(), eng.find(r'^vf_is$'), [P(c.S)]):
        eng.cover(s)
        K = c.K
        eng.oblige(s, v == If1(c.s0 == K['CING'], BV(1, 32), If1(c.s0 == K['CED'], BV(2, 32), If1(c.s0 == K['CLOSED'], BV(4, 32), BV(0, 32)))), 'the-state-reported-is-the-state')
    eng.on_store = None
    s = st.copy()
    ios, ep = eng.new_obj(s, 'ios', 'cells', size=64), eng.new_obj(s, 'ep', 'cells', size=eng.off('SZ_EP'))
    eng.contract(r'^boost::asio::(basic_stream_socket|basic_deadline_timer)<.*>::basic_', nop)
    eng.contract(r'^boost::asio::ip::basic_endpoint<.*>::basic_endpoint\(boost', nop)
    eng.contract(r'enable_shared_from_this', nop)
    for s, v in eng.call(s, eng.find(r'^vf_new$'), [P(c.S), P(ios), P(ep)]):
        eng.cover(s)
        eng.oblige(s, c.status(s) == c.K['INIT'], 'a-new-stream-is-not-open')
        eng.oblige(s, eng.load(s, P(c.S, eng.off('o_to')), ('i', 64)) < 0, 'without-a-connect-timeout')
    s = st.copy()
    t, u = fresh('ticks', 64), fresh('u', 1)
    l0 = eng.load(s, P(c.S, eng.off('o_lrw')), ('i', 64))
    for s, v in eng.call(s, eng.find(B + r'reset_ticks\('), [P(c.S), t, u]):
        eng.cover(s)
        eng.oblige(s, eng.load(s, P(c.S, eng.off('o_ticks')), ('i', 64)) == t, 'the-clock-is-set')
        eng.oblige(s, eng.load(s, P(c.S, eng.off('o_lrw')), ('i', 64)) == If1(u, t, l0), 'traffic-is-only-noted-when-there-is-some')


@PROP.job('read', 'bs')
def j_read(eng):
    """reading hands exactly the given piece of memory to the socket, and the outcome to the stream"""
    transfer(eng, 'async_read_some')


@PROP.job('write', 'bs')
def j_write(eng):
    transfer(eng, 'async_write_some')


def transfer(eng, what):
    if 1:
        c, st = stream(eng, False)
        buf = eng.new_obj(st, 'buf', 'bytes', size=fresh('bs', 64))
        p, n_ = P(buf, c64(0)), fresh('len', 64)
        c.calls = []

        def go(e, s, a, n):
            s.ghost['conn2'] = (s.ghost.get('conn2') or ()) + ((a[0], s.ghost.get('piece'), s.ghost['bindargs']),)
        eng.contract(r'.*boost::asio::basic_stream_socket<.*>::%s<' % what, go)
        eng.contract(r'.*boost::asio::(mutable|const)_buffers?_?1?::(mutable|const)_', nop)

        def buffer(e, s, a, n):
            s.ghost['piece'] = (a[-2], a[-1])
            return Agg([a[-2], a[-1]]) if len(a) == 2 else None
        eng.contract(r'^boost::asio::buffer\(', buffer)
        for s, v in eng.call(st, eng.find(B + what + r'\('), [P(c.S), p, n_]):
            eng.cover(s)
            k = s.ghost.get('conn2') or ()
            ok = len(k) == 1 and isinstance(k[0][0], P) and k[0][0].obj is c.S and k[0][0].off == eng.off('o_sock') and k[0][1] is not None
            eng.oblige(s, z3.BoolVal(ok), what + ':one-transfer-is-started-on-its-socket')
            if ok:
                (_, pm), = eng.call(st.copy(), eng.find(r'^vf_cb_' + what), [])
                flat = lambda xs: [z3.simplify(y) for x in xs for y in (x.vals if isinstance(x, Agg) else [x]) if z3.is_bv(y)]
                eng.oblige(s, z3.BoolVal(any(y.eq(flat([pm])[0]) for y in flat(k[0][2]))), what + ':the-outcome-goes-to-the-stream')
                eng.oblige(s, And(ptr_term(k[0][1][0]) == ptr_term(p), k[0][1][1] == n_), what + ':exactly-the-given-piece-of-memory')
