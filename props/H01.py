"""H01: HTTP requests are read from the connection exactly as sent: method, path, query, headers, and a body of the length declared."""
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.smart import *
from vf.smap import *
from vf.cont import SeqV, get_seq, put_seq
import props.F01 as F01

STR_ = STR
PROP = Prop('H01')
PROP.assumptions = ['std::map with string keys is a partial function; std::vector is a sequence',
                    'strtoll converts the longest numeric prefix and reports where it ends',
                    'ReadBuffer::Append adds the bytes of the piece at the end; TotalCount is the number of bytes appended (proved in B01)',
                    'StringUtils::split and decode_url are as specified in their own properties (N01, K01)',
                    'a stream position stays below 2^60']
TU = '''#include "vfstd.h"
#define private public
#define protected public
#include <sofa/pbrpc/http_rpc_request_parser.cc>
#include <sofa/pbrpc/http_rpc_request.cc>
using namespace sofa::pbrpc;
typedef HTTPRpcRequestParser HP; typedef HTTPRpcRequest HR;
void vf_mk(void** p) { p[0] = new HP; p[1] = new HR; }
#define OFF(n, T, f) extern "C" const unsigned long n = __builtin_offsetof(T, f);
OFF(p_state, HP, _state) OFF(p_name, HP, _header_name) OFF(p_value, HP, _header_value) OFF(p_cl, HP, _content_length) OFF(p_req, HP, _req)
OFF(q_type, HR, _type) OFF(q_orig, HR, _original_path) OFF(q_path, HR, _path) OFF(q_query, HR, _query_string) OFF(q_frag, HR, _fragment_id) OFF(q_method, HR, _method)
OFF(q_params, HR, _query_params) OFF(q_ver, HR, _http_version) OFF(q_heads, HR, _headers) OFF(q_body, HR, _req_body) OFF(q_json, HR, _req_json)
OFF(BH_data, BufHandle, data) OFF(BH_size, BufHandle, size) OFF(BH_off, BufHandle, offset)
#define K(n) extern "C" const unsigned long n = HP::n;
K(PS_METHOD) K(PS_PATH) K(PS_HTTP_VERSION) K(PS_EXPECT_NEW_LINE1) K(PS_HEAD_LINE_START) K(PS_HEAD_NAME) K(PS_HEAD_COLON) K(PS_HEAD_VALUE) K(PS_EXPECT_NEW_LINE2) K(PS_BODY)
extern "C" const unsigned long SZ_P = sizeof(HP), SZ_Q = sizeof(HR), T_GET = HR::GET, T_POST = HR::POST, T_POST_PB = HR::POST_PB;
'''
PROP.tu('http', TU)
HP = r'^sofa::pbrpc::HTTPRpcRequestParser::'
HR = r'^sofa::pbrpc::HTTPRpcRequest::'
MAXPOS = 1 << 60
CH = lambda x: BV(ord(x), 8)
STATES = ['PS_METHOD', 'PS_PATH', 'PS_HTTP_VERSION', 'PS_EXPECT_NEW_LINE1', 'PS_HEAD_LINE_START', 'PS_HEAD_NAME', 'PS_HEAD_COLON', 'PS_HEAD_VALUE', 'PS_EXPECT_NEW_LINE2']


class Ctx:
    pass


def globals_(eng, st):
    """run the initialisers of the parser's string constants"""
    for n in sorted(eng.m.functions):
        f = eng.m.functions[n]
        if n.startswith('__cxx_global_var_init') and f.body_lines and any('HTTPRpcRequestParser' in x for x in f.body_lines):
            rs = eng.call(st, n, [])
            assert len(rs) == 1
            st = rs[0][0]
    return st


def mk(eng):
    c, st = Ctx(), State()
    smart(eng)
    eng.contract(r'^__cxa_atexit', lambda e, s, a, n: BV(0, 32))
    eng.contract(r'^sofa::pbrpc::RpcEndpointToString', lambda e, s, a, n: set_str(e, s, a[0], ASym('ep'), c64(3)))
    c.P = eng.new_obj(st, 'parser', 'cells', size=eng.off('SZ_P'))
    eng.set_vptr(st, c.P, 'sofa::pbrpc::HTTPRpcRequestParser')
    c.Q = eng.new_obj(st, 'request', 'cells', size=eng.off('SZ_Q'))
    eng.set_vptr(st, c.Q, 'sofa::pbrpc::HTTPRpcRequest')
    eng.store(st, P(c.P, eng.off('p_req')), ('ptr',), P(c.Q))
    c.pf = lambda s, k, w=32: eng.load(s, P(c.P, eng.off(k)), ('i', w))
    c.qs = lambda s, k: get_str(eng, s, P(c.Q, eng.off(k)))
    c.ps = lambda s, k: get_str(eng, s, P(c.P, eng.off(k)))
    c.B = ASym('B')
    return c, st


MARKS = ['ps', 'pe', 'vb', 've', 'hb', 'he']        # path, version, header name: where they begin and end


def slice_(eng, c, s, v, lo, hi, y):
    """the string is what the stream has in [lo, hi), at the (arbitrary) position y"""
    return And(z3.ULE(lo, hi), v.len == hi - lo, Implies(And(z3.UGE(y, lo), z3.ULT(y, hi)), str_arr(eng, s, v).get(z3.simplify(y - lo)) == c.B.get(y)))


def HInv(eng, c, s, pos):
    """where the parser stands after reading everything before pos"""
    m = {k: s.ghost[k] for k in MARKS}
    y = c.y
    st = c.pf(s, 'p_state')
    B = c.B.get
    S = lambda k: st == eng.off(k)
    sl = lambda v, lo, hi: slice_(eng, c, s, v, lo, hi, y)
    free = lambda lo, hi, *ch: Implies(And(z3.UGE(y, lo), z3.ULT(y, hi)), And(*[B(y) != CH(x) for x in ch]))
    path, ver = c.qs(s, 'q_orig'), c.qs(s, 'q_ver')
    name, val = c.ps(s, 'p_name'), c.ps(s, 'p_value')
    pathdone = And(sl(path, m['ps'], m['pe']), free(m['ps'], m['pe'], ' '), B(m['pe']) == CH(' '), m['vb'] == m['pe'] + 1)
    verdone = And(pathdone, sl(ver, m['vb'], m['ve']), free(m['vb'], m['ve'], '\r'), B(m['ve']) == CH('\r'), z3.ULT(m['ve'], pos))
    nm = lambda hi: And(verdone, z3.ULT(m['hb'], hi), sl(name, m['hb'], hi), free(m['hb'] + 1, hi, ':'), z3.UGT(m['hb'], m['ve']))
    cases = {
        'PS_METHOD': And(path.len == 0, ver.len == 0, m['ps'] == pos + 1),
        'PS_PATH': And(sl(path, m['ps'], pos), free(m['ps'], pos, ' '), ver.len == 0),
        'PS_HTTP_VERSION': And(pathdone, sl(ver, m['vb'], pos), free(m['vb'], pos, '\r')),
        'PS_EXPECT_NEW_LINE1': And(verdone, B(pos - 1) == CH('\r')),
        'PS_HEAD_LINE_START': And(verdone, B(pos - 1) == CH('\n'), B(pos - 2) == CH('\r'), z3.ULT(m['ve'], pos - 1)),
        'PS_HEAD_NAME': And(nm(pos), val.len == 0, B(m['hb'] - 1) == CH('\n')),
        'PS_HEAD_COLON': And(nm(m['he']), val.len == 0, m['he'] + 1 == pos, B(m['he']) == CH(':')),
        'PS_HEAD_VALUE': And(nm(m['he']), sl(val, m['he'] + 2, pos), free(m['he'] + 2, pos, '\r'), B(m['he']) == CH(':'), B(m['he'] + 1) == CH(' ')),
        'PS_EXPECT_NEW_LINE2': And(verdone, B(pos - 1) == CH('\r'), B(pos - 2) == CH('\n')),
        'PS_BODY': And(verdone, B(pos - 1) == CH('\n'), B(pos - 2) == CH('\r'), B(pos - 3) == CH('\n')),
    }
    return And(z3.ULE(pos, MAXPOS + 8), z3.UGE(pos, 4), z3.UGE(m['ps'], 4), *[z3.ULE(m[k], pos + 1) for k in MARKS], Or(*[And(S(k), v) for k, v in cases.items()]))


def mkreq(eng, c, st):
    for k in MARKS:
        st.ghost[k] = fresh(k, 64)
    c.y, c.pos = fresh('y', 64), fresh('pos', 64)
    st.assume(z3.ULE(c.pos, MAXPOS))


def internal(state):
    def job(eng):
        """reading one more character keeps: every token read is what the stream has between its delimiters"""
        c, st = mk(eng)
        maps = StrMaps(eng)
        st = globals_(eng, st)
        mkreq(eng, c, st)
        eng.store(st, P(c.P, eng.off('p_state')), ('i', 32), BV(eng.off(state), 32))
        st.assume(HInv(eng, c, st, c.pos))
        g = st.ghost
        g.update({'badpath': BV(0, 8), 'num': c64(0), 'cl': BV(0, 8), 'conv': BV(0, 8)})
        old = {k: g[k] for k in MARKS}
        ch = fresh('char', 8)
        st.assume(ch == c.B.get(c.pos))
        cl0, ty0 = c.pf(st, 'p_cl', 64), eng.load(st, P(c.Q, eng.off('q_type')), ('i', 32))
        st.assume(cl0 == 0)          # the body length is only set when the headers end

        def path(e, s, a, n):
            e.oblige(s, z3.BoolVal(isinstance(a[0], P) and a[0].obj is c.Q), 'parses-the-path-of-this-request')
            s2 = s.copy()
            e.setghost(s2, 'badpath', BV(1, 8))
            e.setghost(s, 'badpath', BV(2, 8))
            return [(s, TRUE), (s2, FALSE)]
        eng.contract(HR + r'ParsePath', path, trusted=False)

        def strtoll(e, s, a, n):
            """the number at the start of the text; *end where it ends"""
            p = e.materialise(s, a[0])
            hd = c.Q.memo.get(('smapnodes', eng.off('q_heads')), {}).get(b'Content-Length')
            v = get_str(e, s, P(hd[0], 32)) if hd else None
            e.oblige(s, z3.BoolVal(v is not None and p.obj is v.obj and p.off == 0 and not p.sym), 'the-length-declared')
            e.oblige(s, a[2] == 10, 'in-decimal')
            num, end = z3.BitVec('declared', 64), z3.BitVec('declared_end', 64)
            s.assume(z3.ULE(end, v.len))
            if not (isinstance(a[1], P)):
                e.oblige(s, ptr_term(a[1]) == 0, 'strtoll-end')
            else:
                e.store(s, a[1], ('ptr',), P(v.obj).addsym(end, 1))
            e.setghost(s, 'conv', BV(1, 8))
            return num
        eng.contract(r'^(__isoc23_)?strto(ll|l|q)$', strtoll)
        fn = eng.find(HP + r'ParseInternal')
        err = eng.new_obj(st, 'err', 'cells', size=32)
        set_str(eng, st, P(err), ASym('err'), c64(0))
        name0, val0 = c.ps(st, 'p_name'), c.ps(st, 'p_value')
        S = lambda s, k: c.pf(s, 'p_state') == eng.off(k)
        kinds = set()
        for s, r in eng.call(st, fn, [P(c.P), ch, P(err)]):
            eng.cover(s)
            r = z3.simplify(r)
            kinds.add(str(r))
            s1 = cval(z3.simplify(c.pf(s, 'p_state')))
            if s1 is None:
                raise Unsupported('symbolic parser state')
            # where the tokens are now
            for k, frm, to, at in (('pe', 'PS_PATH', 'PS_HTTP_VERSION', c.pos), ('vb', 'PS_PATH', 'PS_HTTP_VERSION', c.pos + 1), ('ve', 'PS_HTTP_VERSION', 'PS_EXPECT_NEW_LINE1', c.pos),
                                   ('hb', 'PS_HEAD_LINE_START', 'PS_HEAD_NAME', c.pos), ('he', 'PS_HEAD_NAME', 'PS_HEAD_COLON', c.pos)):
                if state == frm and s1 == eng.off(to):
                    s.ghost[k] = z3.simplify(at)
            req = ptr_term(eng.load(s, P(c.P, eng.off('p_req')), ('ptr',)))
            eng.oblige(s, Or(r == 0, r == 1, r == -1), 'known-outcome')
            eng.oblige(s, Implies(r != -1, And(req == c.Q.addr, HInv(eng, c, s, c.pos + 1))), 'tokens-are-the-stream-between-delimiters')
            eng.oblige(s, (r == 1) == And(S(s, 'PS_BODY'), r != -1), 'done-when-the-headers-end')
            hv = dict(maps.get(s, P(c.Q, eng.off('q_heads'))).entries)
            cl1, ty1 = c.pf(s, 'p_cl', 64), eng.load(s, P(c.Q, eng.off('q_type')), ('i', 32))
            bad = {'PS_METHOD': ch != CH(' '), 'PS_PATH': s.ghost['badpath'] == 1, 'PS_EXPECT_NEW_LINE1': ch != CH('\n'), 'PS_EXPECT_NEW_LINE2': ch != CH('\n'), 'PS_HEAD_COLON': ch != CH(' ')}
            refuse = bad.get(state, z3.BoolVal(False))
            if state == 'PS_PATH':
                eng.oblige(s, (s.ghost['badpath'] != 0) == (ch == CH(' ')), 'path-parsed-when-complete')
            if state == 'PS_EXPECT_NEW_LINE2':
                seen = hv.get(b'Content-Length')
                if seen is not None:
                    has, o = seen
                    v = get_str(eng, s, P(o, 32))
                    num, end = z3.BitVec('declared', 64), z3.BitVec('declared_end', 64)
                    good = And(num >= 0, str_arr(eng, s, v).get(end) == 0)
                    eng.oblige(s, Implies(And(ch == CH('\n'), has), And(s.ghost['conv'] == 1, Implies(good, cl1 == num), (r == -1) == Not(good))), 'body-length-is-the-length-declared')
                    eng.oblige(s, Implies(And(ch == CH('\n'), Not(has)), And(r != -1, cl1 == 0)), 'no-declared-length-no-body')
                    acc = hv.get(b'Accept')
                    if acc is not None:
                        av = get_str(eng, s, P(acc[1], 32))
                        lit = b'application/protobuf'
                        pb = And(acc[0], av.len == len(lit), *[str_arr(eng, s, av).get(c64(i)) == x for i, x in enumerate(lit)])
                        eng.oblige(s, Implies(r == 1, ty1 == z3.If(pb, BV(eng.off('T_POST_PB'), 32), ty0)), 'protobuf-when-asked-for')
                    else:
                        eng.oblige(s, r != 1, 'looks-at-what-is-accepted')
                else:
                    eng.oblige(s, ch != CH('\n'), 'looks-at-the-declared-length')
                eng.oblige(s, Implies(ch != CH('\n'), r == -1), 'needs-the-end-of-the-line')
            else:
                eng.oblige(s, (r == -1) == refuse, 'refuses-exactly-what-is-malformed')
                eng.oblige(s, And(cl1 == cl0, ty1 == ty0), 'length-and-type-as-they-were')
            if state == 'PS_HEAD_VALUE':
                new = [(k, x) for k, x in hv.items()]
                rec = z3.BoolVal(len(new) == 1)
                if len(new) == 1:
                    k, (has, o) = new[0]
                    w = get_str(eng, s, P(o, 32))
                    rec = And(has, z3.BoolVal(k == ('var', name0.obj.id)), w.len == val0.len, Implies(z3.ULT(c.y, w.len), str_arr(eng, s, w).get(c.y) == str_arr(eng, st, val0).get(c.y)))
                eng.oblige(s, Implies(ch == CH('\r'), rec), 'the-header-is-recorded-as-sent')
                eng.oblige(s, Implies(ch != CH('\r'), z3.BoolVal(not new)), 'not-before-it-is-complete')
            elif state != 'PS_EXPECT_NEW_LINE2':
                eng.oblige(s, z3.BoolVal(not hv), 'headers-as-they-were')
        eng.oblige(st, z3.BoolVal(len(kinds) >= (1 if state in ('PS_HTTP_VERSION', 'PS_HEAD_LINE_START', 'PS_HEAD_NAME', 'PS_HEAD_VALUE') else 2)), 'outcomes')
    return job


for k in STATES:
    PROP.job('ParseInternal-' + k[3:].lower(), 'http')(internal(k))


@PROP.job('CheckMagicString', 'http')
def j_magic(eng):
    c, st = mk(eng)
    mkreq(eng, c, st)
    m = eng.new_obj(st, 'magic', 'bytes', size=c64(4), arr=AFn(lambda i: c.B.get(z3.simplify(c.pos + i))))
    eng.store(st, P(c.P, eng.off('p_state')), ('i', 32), BV(eng.off('PS_METHOD'), 32))
    st.assume(And(c.qs(st, 'q_orig').len == 0, c.qs(st, 'q_ver').len == 0))
    is_ = lambda t: And(*[c.B.get(z3.simplify(c.pos + i)) == ord(x) for i, x in enumerate(t)])
    get, post = is_('GET '), is_('POST')
    for s, r in eng.call(st, eng.find(HP + r'CheckMagicString'), [P(c.P), P(m)]):
        eng.cover(s)
        r = r if z3.is_bool(r) else r != 0
        for k in MARKS:
            s.ghost[k] = z3.simplify(c.pos + 4)
        s.ghost['ps'] = z3.simplify(z3.If(get, c.pos + 4, c.pos + 5))
        eng.oblige(s, r == Or(get, post), 'accepts-exactly-its-methods')
        eng.oblige(s, Implies(r, HInv(eng, c, s, c.pos + 4)), 'then-it-reads-the-path')
        eng.oblige(s, Implies(r, eng.load(s, P(c.Q, eng.off('q_type')), ('i', 32)) == z3.If(get, BV(eng.off('T_GET'), 32), BV(eng.off('T_POST'), 32))), 'the-method-sent')
        eng.oblige(s, Implies(Not(r), c.pf(s, 'p_state') == eng.off('PS_METHOD')), 'else-it-is-as-before')


@PROP.job('Reset', 'http')
def j_reset(eng):
    """after Reset the parser waits for the method with a request of its own: empty path, no headers, no declared length"""
    c, st = mk(eng)
    StrMaps(eng)
    st.ghost['body'] = c64(0)
    eng.contract(r'^sofa::pbrpc::ReadBuffer::ReadBuffer\(\)', lambda e, s, a, n: e.setghost(s, 'body', ptr_term(a[0])))
    eng.contract(r'^sofa::pbrpc::RpcRequest::RpcRequest\(\)', nop)
    eng.contract(r'^operator delete', nop)
    for s, r in eng.call(st, eng.find(HP + r'Reset\(\)'), [P(c.P)]):
        eng.cover(s)
        q = eng.load(s, P(c.P, eng.off('p_req')), ('ptr',))
        new = isinstance(q, P) and q.obj is not c.Q and q.obj.kind == 'cells'
        eng.oblige(s, z3.BoolVal(new), 'a-new-request')
        eng.oblige(s, And(c.pf(s, 'p_state') == eng.off('PS_METHOD'), c.pf(s, 'p_cl', 64) == 0), 'waits-for-the-method')
        if new:
            for k in ('q_orig', 'q_ver', 'q_path', 'q_method', 'q_query', 'q_frag'):
                eng.oblige(s, get_str(eng, s, q.add(eng.off(k))).len == 0, 'nothing-read-yet')
            for k in ('q_heads', 'q_params'):
                mv = s.ghost.get(('smap', q.obj.id, q.off + eng.off(k)))
                eng.oblige(s, z3.BoolVal(mv is not None and mv.empty and not mv.entries), 'no-headers-yet')
            eng.oblige(s, And(ptr_term(eng.load(s, q.add(eng.off('q_body')), ('ptr',))) == s.ghost['body'], s.ghost['body'] != 0), 'an-empty-body')
            eng.oblige(s, ptr_term(eng.load(s, q.add(eng.off('q_json')), ('ptr',))) == 0, 'no-document')


@PROP.job('Parse', 'http')
def j_parse(eng):
    """whatever pieces it is fed: every character of the head goes to the state machine once, in order; the body is the bytes that
    follow, as many as declared; the request is reported exactly when complete and no byte behind it is used"""
    c, st = mk(eng)
    c.T = eng.new_obj(st, 'tran', 'bytes', size=fresh('trancap', 64))
    cap = c.T.size
    st.assume(And(z3.UGT(cap, 0), z3.ULE(cap, 1 << 20)))
    c.off, c.n, c.fp, c.x = fresh('off', 32), fresh('n', 32), fresh('fp', 64), fresh('x', 64)
    st.assume(And(c.n > 0, c.off >= 0, z3.ULE(sx(c.off), cap), z3.ULE(sx(c.n), cap - sx(c.off)), z3.ULE(c.fp, MAXPOS)))
    tarr = ASym('tranbytes')
    eng.ost(st, c.T).arr = AFn(lambda i: z3.If(And(z3.UGE(i, sx(c.off)), z3.ULT(i, sx(c.off) + sx(c.n))), c.B.get(z3.simplify(i - sx(c.off) + c.fp)), tarr.get(i)))
    c.body = fresh('body', 64)
    st.assume(c.body != 0)
    eng.store(st, P(c.Q, eng.off('q_body')), ('ptr',), c.body)
    BODY = BV(eng.off('PS_BODY'), 32)
    st.ghost.update({'len': fresh('len', 64), 'byte': fresh('byte', 8), 'fp': c.fp, 'hend': fresh('hend', 64), 'bad': BV(0, 8)})
    C = eng.contract

    def step(e, s, a, n):
        g = s.ghost
        e.oblige(s, And(c.pf(s, 'p_state') != BODY, a[1] == c.B.get(g['fp']), z3.ULT(g['fp'], c.fp + sx(c.n))), 'feeds-each-character-once-in-order')
        e.setghost(s, 'fp', z3.simplify(g['fp'] + 1))
        s0, s1 = s.copy(), s.copy()
        e.setghost(s, 'bad', BV(1, 8))
        k = fresh('state', 32)
        s0.assume(And(k != BODY, z3.ULE(k, 9)))
        e.store(s0, P(c.P, e.off('p_state')), ('i', 32), k)
        e.store(s1, P(c.P, e.off('p_state')), ('i', 32), BODY)
        cl = fresh('declared', 64)
        s1.assume(cl >= 0)
        e.store(s1, P(c.P, e.off('p_cl')), ('i', 64), cl)
        e.setghost(s1, 'hend', s1.ghost['fp'])
        neg = fresh('error', 32)
        s.assume(neg < 0)
        return [(s, neg), (s0, BV(0, 32)), (s1, BV(1, 32))]
    C(HP + r'ParseInternal', step, trusted=False)
    C(r'^sofa::pbrpc::ReadBuffer::TotalCount\(\) const', lambda e, s, a, n: (e.oblige(s, ptr_term(a[0]) == c.body, 'the-body-of-this-request'), s.ghost['len'])[1], trusted=False)

    def app(e, s, a, n):
        d = e.load(s, e.padd(s, a[1], e.off('BH_data')), ('ptr',))
        sz = e.load(s, e.padd(s, a[1], e.off('BH_size')), ('i', 32))
        of = e.load(s, e.padd(s, a[1], e.off('BH_off')), ('i', 32))
        e.oblige(s, ptr_term(a[0]) == c.body, 'piece-goes-to-the-body-of-this-request')
        e.oblige(s, And(ptr_term(d) == c.T.addr, sz > 0, of >= 0, z3.ULE(sx(of) + sx(sz), c.T.size)), 'piece-inside-the-block')
        ln = s.ghost['len']
        arr = e.ost(s, c.T).arr
        e.setghost(s, 'byte', z3.simplify(z3.If(And(z3.UGE(c.x, ln), z3.ULT(c.x - ln, sx(sz))), arr.get(z3.simplify(sx(of) + c.x - ln)), s.ghost['byte'])))
        e.setghost(s, 'len', z3.simplify(ln + sx(sz)))
        e.setghost(s, 'fp', z3.simplify(s.ghost['fp'] + sx(sz)))
    C(r'^sofa::pbrpc::ReadBuffer::Append\(sofa::pbrpc::BufHandle', app, trusted=False)

    def PI(s, pos):
        g = s.ghost
        state, cl = c.pf(s, 'p_state'), c.pf(s, 'p_cl', 64)
        req = ptr_term(eng.load(s, P(c.P, eng.off('p_req')), ('ptr',)))
        rb = ptr_term(eng.load(s, P(c.Q, eng.off('q_body')), ('ptr',)))
        return And(z3.ULE(state, 9), req == c.Q.addr, rb == c.body, g['fp'] == pos, z3.If(state == BODY,
                   And(cl > 0, z3.ULE(g['hend'], pos), g['len'] == pos - g['hend'], z3.ULT(g['len'], cl)), And(g['len'] == 0, cl == 0)),
                   Implies(z3.ULT(c.x, g['len']), g['byte'] == c.B.get(z3.simplify(g['hend'] + c.x))))
    st.assume(PI(st, c.fp))

    def inv(eng, ctx):
        out = []
        for nm, p in ptr_positions(eng, c, ctx):
            out.append(('at[%s]' % nm, lambda s, e, p=p: And(s.ghost['fp'] == p(s, e), z3.ULE(c.fp, p(s, e)), z3.ULE(p(s, e), c.fp + sx(c.n)))))
        out.append(('head', lambda s, e: And(c.pf(s, 'p_state') != BODY, z3.ULE(c.pf(s, 'p_state'), 9), s.ghost['len'] == 0, s.ghost['bad'] == 0)))
        out.append(('cl', lambda s, e: c.pf(s, 'p_cl', 64) == 0))
        return out
    eng.loopspecs.append(('.', inv))
    out = eng.new_obj(st, 'consumed', 'cells', size=4)
    kinds = set()
    for body in (False, True):
        s0 = st.copy()
        s0.assume((c.pf(s0, 'p_state') == BODY) if body else (c.pf(s0, 'p_state') != BODY))
        for s, r in eng.call(s0, eng.find(HP + r'Parse\('), [P(c.P), P(c.T), c.n, c.off, P(out)]):
            eng.cover(s)
            used = eng.load(s, P(out), ('i', 32))
            g = s.ghost
            r = z3.simplify(r)
            kinds.add(str(r))
            end = c.fp + sx(c.n)
            cl = c.pf(s, 'p_cl', 64)
            eng.oblige(s, Implies(r == 0, used == c.n), 'asks-for-more-only-when-all-is-used')
            eng.oblige(s, Implies(r == 0, PI(s, end)), 'between-two-pieces')
            eng.oblige(s, Implies(r > 0, And(c.pf(s, 'p_state') == BODY, used >= 0, used <= c.n, g['len'] == cl, c.fp + sx(used) == g['hend'] + cl)), 'complete-exactly-at-its-declared-end')
            eng.oblige(s, Implies(And(r > 0, z3.ULT(c.x, g['len'])), g['byte'] == c.B.get(z3.simplify(g['hend'] + c.x))), 'body-bytes-are-the-stream-bytes')
            eng.oblige(s, (r < 0) == (g['bad'] == 1), 'refuses-exactly-what-the-grammar-refuses')
    eng.oblige(st, z3.BoolVal(len(kinds) >= 3), 'all-outcomes')


def ptr_positions(eng, c, ctx):
    """every way a local of the loop may denote the current stream position"""
    c.delta, c.pos0, c.end = z3.simplify(c.fp - sx(c.off)), c.fp, z3.simplify(c.fp + sx(c.n))
    out = list(F01.stream_positions(eng, c, ctx))
    for nm, g in loop_ints(eng, ctx):
        out.append((nm + ':offset', lambda s, e, g=g: z3.simplify(g(s, e) + c.delta)))
    return out


class Pieces:
    """what StringUtils::split gives: N pieces; piece i has PLEN(i) bytes PB(i, k); HAS(i): it has a '=', the first at EQ(i)"""

    def __init__(self, eng, st):
        b64 = z3.BitVecSort(64)
        self.eng = eng
        self.pb = z3.Function('piece_byte', b64, b64, z3.BitVecSort(8))
        self.pl = z3.Function('piece_len', b64, b64)
        self.has = z3.Function('piece_has', b64, z3.BoolSort())
        self.eq = z3.Function('piece_eq', b64, b64)
        self.n = fresh('pieces', 64)
        st.assume(z3.ULE(self.n, 1 << 40))
        self.obj = Obj('pieces', 'elems', stride=32)
        self.obj.layout = [(0, 8), (8, 8), (16, 8), (24, 8)]
        self.memo = {}
        self.obj.strfield = self.field

    def at(self, s, i):
        """facts about piece i"""
        s.assume(z3.ULT(self.pl(i), MAXLEN))
        s.assume(Implies(self.has(i), And(z3.ULT(self.eq(i), self.pl(i)), self.pb(i, self.eq(i)) == CH('='))))
        s.forall(lambda k: Implies(And(z3.ULT(k, z3.If(self.has(i), self.eq(i), self.pl(i)))), self.pb(i, k) != CH('=')), 'piece')
        s.hint(self.eq(i))

    def field(self, eng, st, p):
        i, r = eng.elem_split(p)
        i = z3.simplify(i)
        if i.get_id() not in self.memo:
            o = Obj('piece', 'bytes', size=z3.simplify(self.pl(i) + 1))
            o.memo['arr'] = AFn(lambda k: self.pb(i, k))
            self.memo[i.get_id()] = (i, StrV(o, self.pl(i)))
        self.at(st, i)
        return self.memo[i.get_id()][1]


@PROP.job('ParsePath', 'http')
def j_path(eng):
    """the path is what precedes the first ? or #, the method is the path without its slash, the query is what follows the ? up to the
    first #, the fragment is the rest; each piece of the query with a = is recorded in order, its value url-decoded"""
    c, st = mk(eng)
    C = eng.contract
    orig = c.qs(st, 'q_orig')
    arr, ln = str_arr(eng, st, orig), orig.len
    for k in ('q_path', 'q_method', 'q_query', 'q_frag'):
        set_str(eng, st, P(c.Q, eng.off(k)), AConst(BV(0, 8)), c64(0))
    pc = Pieces(eng, st)
    c.j = fresh('j', 64)          # an arbitrary piece
    st.ghost.update({'split': BV(0, 8), 'cur': c64(0), 'next': c64(0), 'rec': BV(0, 8), 'key': BV(0, 8)})
    pc.at(st, c.j)
    x = fresh('x', 64)
    V = r'^std::vector<std::__cxx11::basic_string<char.*>::'
    C(V + r'(~?vector)\(\)$', nop)
    C(V + r'size\(\) const', lambda e, s, a, n: z3.If(s.ghost['split'] == 1, pc.n, c64(0)))
    C(V + r'empty\(\) const', lambda e, s, a, n: z3.If(s.ghost['split'] == 1, pc.n == 0, TRUE))

    def elem(e, s, a, n):
        e.oblige(s, And(s.ghost['split'] == 1, z3.ULT(a[1], pc.n)), 'index-in-range')
        e.setghost(s, 'cur', z3.simplify(a[1]))
        return P(pc.obj).addsym(a[1], 32)
    C(V + r'(operator\[\]|at)\(unsigned long\)( const)?$', elem)

    def split(e, s, a, n):
        v, q, d = get_str(e, s, a[0]), get_str(e, s, P(c.Q, e.off('q_query'))), get_str(e, s, a[1])
        k = fresh('k', 64)
        e.oblige(s, And(v.len == q.len, Implies(z3.ULT(k, v.len), str_arr(e, s, v).get(k) == str_arr(e, s, q).get(k)), s.ghost['split'] == 0), 'splits-the-query')
        e.oblige(s, z3.BoolVal(literal(e, s, d) == b'&'), 'at-each-ampersand')
        e.setghost(s, 'split', BV(1, 8))
    C(r'^sofa::pbrpc::StringUtils::split\(', split)

    def decode(e, s, a, n):
        v, i = get_str(e, s, a[1]), s.ghost['cur']
        va = str_arr(e, s, v)
        e.oblige(s, And(pc.has(i), v.len == pc.pl(i) - pc.eq(i) - 1, Implies(z3.ULT(x, v.len), va.get(x) == pc.pb(i, pc.eq(i) + 1 + x))), 'decodes-what-follows-the-first-equals-sign')
        e.oblige(s, a[2] == 0x30, 'decodes-everything')
        set_str(e, s, a[0], ASym('decoded'), fresh('declen', 64))
        s.ghost['decoded'] = get_str(e, s, a[0])
    C(r'^sofa::pbrpc::StringUtils::decode_url\(', decode)

    def on_index(e, s, mp, kp, node):
        v, i = get_str(e, s, kp), s.ghost['cur']
        e.oblige(s, z3.BoolVal(isinstance(mp, P) and mp.obj is c.Q and mp.off == e.off('q_params')), 'recorded-as-query-parameter')
        e.oblige(s, And(pc.has(i), v.len == pc.eq(i), Implies(z3.ULT(x, v.len), str_arr(e, s, v).get(x) == pc.pb(i, x))), 'its-name-is-what-precedes-the-equals-sign')
        e.oblige(s, z3.ULE(s.ghost['next'], i), 'in-order')
        s.ghost['slot'] = node
    StrMaps(eng, on_index)

    def assign(e, s, a, n):
        node = s.ghost.get('slot')
        w = get_str(e, s, a[1])
        if node is not None and isinstance(a[0], P) and a[0].obj is node:
            d = s.ghost.get('decoded')
            same = d is not None and d.len is w.len or (d is not None and str(z3.simplify(d.len)) == str(z3.simplify(w.len)))
            y = fresh('y', 64)
            e.oblige(s, And(z3.BoolVal(d is not None), (And(w.len == d.len, Implies(z3.ULT(y, w.len), str_arr(e, s, w).get(y) == e.ost(s, d.obj).arr.get(y))) if d is not None else TRUE)), 'its-value-is-decoded')
            i = s.ghost['cur']
            e.setghost(s, 'rec', z3.simplify(z3.If(i == c.j, BV(1, 8), s.ghost['rec'])))
            e.setghost(s, 'next', z3.simplify(i + 1))
            s.ghost.pop('slot')
        alias_str(e, s, a[0], w)
        return a[0]
    C(SP + r'(operator=|assign)\(' + STR_ + r'( const)?&&?\)$', assign)
    QM, HA = CH('?'), CH('#')

    def inv(eng, ctx):
        out = []
        for nm, g in loop_ints(eng, ctx):
            for lo in (1, 0):
                out.append(('%s>=%d' % (nm, lo), lambda s, e, g=g, lo=lo: z3.UGE(g(s, e), lo)))
            out.append(('%s<=len' % nm, lambda s, e, g=g: z3.ULE(g(s, e), ln)))
            out.append(('%s<=pieces' % nm, lambda s, e, g=g: z3.ULE(g(s, e), pc.n)))
            out.append(('%s-no-delimiter' % nm, lambda s, e, g=g: ForAll(lambda k: Implies(And(z3.UGE(k, 1), z3.ULT(k, g(s, e))), And(arr.get(k) != QM, arr.get(k) != HA)))))
            st0 = g(ctx.st0, ctx.env0)
            out.append(('%s-no-hash' % nm, lambda s, e, g=g, st0=st0: ForAll(lambda k: Implies(And(z3.UGE(k, st0), z3.ULT(k, g(s, e))), arr.get(k) != HA))))
            out.append(('%s-beyond-start' % nm, lambda s, e, g=g, st0=st0: z3.UGE(g(s, e), st0)))
            out.append(('%s-recorded' % nm, lambda s, e, g=g: And(z3.ULE(s.ghost['next'], g(s, e)), Implies(And(pc.has(c.j), z3.ULT(c.j, g(s, e))), s.ghost['rec'] == 1))))
        return out
    eng.loopspecs.append(('.', inv))
    kinds = set()
    st.ghost['rec'] = BV(0, 8)
    for s, r in eng.call(st, eng.find(HR + r'ParsePath'), [P(c.Q)]):
        eng.cover(s)
        r = r if z3.is_bool(r) else r != 0
        r = z3.simplify(r)
        kinds.add(str(r))
        bad = Or(ln == 0, arr.get(c64(0)) != CH('/'))
        eng.oblige(s, r == Not(bad), 'refuses-only-a-path-without-slash')
        path, meth, q, fr = (c.qs(s, k) for k in ('q_path', 'q_method', 'q_query', 'q_frag'))
        G = lambda v: str_arr(eng, s, v)
        e = path.len
        eng.oblige(s, Implies(r, And(z3.UGE(e, 1), z3.ULE(e, ln), Or(e == ln, arr.get(e) == QM, arr.get(e) == HA), Implies(z3.ULT(x, e), G(path).get(x) == arr.get(x)))), 'the-path')
        eng.oblige(s, ForAll(lambda k: Implies(And(r, z3.UGE(k, 1), z3.ULT(k, e)), And(arr.get(k) != QM, arr.get(k) != HA))), 'up-to-the-first-delimiter')
        eng.oblige(s, Implies(r, And(meth.len == e - 1, Implies(z3.ULT(x, meth.len), G(meth).get(x) == arr.get(x + 1)))), 'the-method')
        hasq = And(r, z3.ULT(e, ln), arr.get(e) == QM)
        f = z3.If(hasq, e + 1 + q.len, e)
        eng.oblige(s, Implies(And(r, Not(hasq)), q.len == 0), 'no-query')
        eng.oblige(s, Implies(hasq, And(z3.ULE(f, ln), Or(f == ln, arr.get(f) == HA), Implies(z3.ULT(x, q.len), G(q).get(x) == arr.get(e + 1 + x)))), 'the-query')
        eng.oblige(s, ForAll(lambda k: Implies(And(hasq, z3.UGT(k, e), z3.ULT(k, f)), arr.get(k) != HA)), 'the-query-ends-at-the-first-hash')
        eng.oblige(s, Implies(And(r, f == ln), fr.len == 0), 'no-fragment')
        eng.oblige(s, Implies(And(r, z3.ULT(f, ln)), And(fr.len == ln - f - 1, Implies(z3.ULT(x, fr.len), G(fr).get(x) == arr.get(f + 1 + x)))), 'the-fragment')
        g = s.ghost
        eng.oblige(s, Implies(And(hasq, q.len != 0), And(g['split'] == 1, Implies(And(z3.ULT(c.j, pc.n), pc.has(c.j)), g['rec'] == 1))), 'every-parameter-is-recorded')
        eng.oblige(s, Implies(q.len == 0, g['split'] == 0), 'nothing-else-is')
    eng.oblige(st, z3.BoolVal(len(kinds) >= 2), 'both-outcomes')


PROP.native('server', 'server.cc', args=['http1', '60'], thorough_args=['http1', '1500'],
            what='real server against a scripted HTTP client: every request, cut into packets at random, is run exactly as sent', **F01.ALL)
