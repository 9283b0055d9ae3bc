"""H02: an HTTP request runs the method its path names once, or is answered with the error that applies; answers are well-formed HTTP."""
import re
import vf.variant
import props.D01 as D01
from vf.api import Prop
from vf.engine import *
from vf.std import *
from vf.spec import *
from vf.smart import *
from vf.smap import *
from props.D01 import base, Ctx, RR, ST
import props.F01 as F01

PROP = Prop('H02')
PROP.assumptions = ['the service runs its done closure at most once', 'protobuf parses and serialises a message, or reports failure',
                    'the JSON conversion gives the message the text describes, or an error (the conversion itself is not part of this property)',
                    'google::protobuf::io::Printer writes its text with the variables replaced', 'weak pointers give the stream while it exists',
                    'CallMethod, OnCallMethodDone and SendFailedResponse are shared with the binary protocol and proved in D01']
TU = D01.TU.replace('#include <sofa/pbrpc/binary_rpc_request.cc>', '#include <sofa/pbrpc/http_rpc_request.cc>\n#include <sofa/pbrpc/web_service.h>\n#include <sofa/pbrpc/compressed_stream.h>').replace('BinaryRpcRequest', 'HTTPRpcRequest')
TU = re.sub(r'OFF\(r_meta.*?\) ', '', TU)
TU = TU.replace('OFF(h_meta', '''OFF(q_type, HTTPRpcRequest, _type) OFF(q_method, HTTPRpcRequest, _method) OFF(q_path, HTTPRpcRequest, _path) OFF(q_params, HTTPRpcRequest, _query_params) OFF(q_heads, HTTPRpcRequest, _headers) OFF(q_json, HTTPRpcRequest, _req_json)
OFF(i_http, RpcControllerImpl, _is_http) OFF(i_hpath, RpcControllerImpl, _http_path) OFF(i_hparams, RpcControllerImpl, _http_query_params) OFF(i_hheads, RpcControllerImpl, _http_headers)
OFF(w_status, HTTPResponse, status_line) OFF(w_type, HTTPResponse, content_type) OFF(w_content, HTTPResponse, content)
extern "C" const unsigned long T_GET = HTTPRpcRequest::GET, T_POST = HTTPRpcRequest::POST, T_POST_PB = HTTPRpcRequest::POST_PB, R_JSON = HTTPRpcRequest::JSON, R_PB = HTTPRpcRequest::PROTOBUF, R_HTML = HTTPRpcRequest::HTML, SZ_W = sizeof(HTTPResponse);
OFF(h_meta''')
TU += '''
struct VFWriteBuffer : public WriteBuffer { virtual int64 ByteCount() const; };
int64 VFWriteBuffer::ByteCount() const { return 0; }
VFWriteBuffer* vfwb() { return new VFWriteBuffer(); }
'''
PROP.tu('http', TU)
HR = r'^sofa::pbrpc::HTTPRpcRequest::'


def hbase(eng):
    c, st = base(eng, 'HTTPRpcRequest')
    c.stream, c.pool = fresh('stream', 64), fresh('pool', 64)
    st.assume(And(c.stream != 0, c.pool != 0))
    c.wp, c.pp = (eng.new_obj(st, n, 'cells', size=16) for n in ('streamptr', 'poolptr'))
    eng.store(st, P(c.wp), ('ptr',), c.stream)
    eng.store(st, P(c.pp), ('ptr',), c.pool)
    c.isstream = lambda e, s, p: ptr_term(e.load(s, p, ('ptr',))) == c.stream
    c.samestr = lambda e, s, v, arr, ln: (lambda k: And(v.len == ln, Implies(z3.ULT(k, ln), str_arr(e, s, v).get(k) == arr.get(k))))(fresh('k', 64))
    c.type = eng.load(st, P(c.R, eng.off('q_type')), ('i', 32))
    st.assume(Or(*[c.type == eng.off(k) for k in ('T_GET', 'T_POST', 'T_POST_PB')]))
    return c, st


@PROP.job('ProcessRequest', 'http')
def j_proc(eng):
    """a request is either handed to its method with everything it said, or answered once with the error that applies, or routed to the pages"""
    c, st = hbase(eng)
    C = eng.contract
    z = c64(0)
    st.ghost.update({'call': z, 'fail': z, 'inner': z, 'code': BV(0, 32), 'newq': z, 'newr': z, 'parsed': BV(0, 8), 'split': BV(0, 8), 'found': BV(0, 8), 'docs': z})
    body = fresh('body', 64)
    st.assume(body != 0)
    eng.store(st, P(c.R, eng.off('r_body')), ('ptr',), body)
    recv = eng.load(st, P(c.R, eng.off('r_recv')), ('i', 64))
    m0 = get_str(eng, st, P(c.R, eng.off('q_method')))
    marr, mlen = str_arr(eng, st, m0), m0.len
    maps = StrMaps(eng)
    bt, blen = ASym('bodytext'), fresh('bodylen', 64)
    st.assume(z3.ULT(blen, MAXLEN))
    C(r'^sofa::pbrpc::ReadBuffer::ToString(\[abi:cxx11\])?\(\) const', lambda e, s, a, n: (e.oblige(s, ptr_term(a[1]) == body, 'the-body-of-this-request'), set_str(e, s, a[0], bt, blen))[0])

    def parse(e, s, a, n):
        e.oblige(s, c.samestr(e, s, get_str(e, s, a[0]), marr, mlen), 'the-name-in-the-request')
        s2 = s.copy()
        for i, nm in ((1, 'sname'), (2, 'mname')):
            set_str(e, s, a[i], ASym(nm), fresh('l' + nm, 64))
        s.ghost['names'] = (get_str(e, s, a[1]), get_str(e, s, a[2]))
        e.setghost(s, 'split', BV(1, 8))
        return [(s2, FALSE), (s, TRUE)]
    C(RR + r'ParseMethodFullName', parse, trusted=False)

    def find(e, s, a, n):
        nm = s.ghost.get('names')
        okn = nm is not None and get_str(e, s, a[1]).obj is nm[0].obj and get_str(e, s, a[2]).obj is nm[1].obj
        e.oblige(s, And(z3.BoolVal(okn), ptr_term(e.load(s, a[0], ('ptr',))) == c.pool), 'by-the-names-in-the-request')
        s2 = s.copy()
        e.setghost(s, 'found', BV(1, 8))
        return [(s2, c64(0)), (s, P(c.B))]
    C(RR + r'FindMethodBoard', find, trusted=False)

    def inner(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(c.is_r(a[0])), c.isstream(e, s, a[1]), ptr_term(e.load(s, a[2], ('ptr',))) == c.pool), 'routes-this-request')
        c.add(s, 'inner')
    C(HR + r'InnerProcess', inner, trusted=False)
    pq, pr = (eng.new_obj(st, n, 'cells', size=64) for n in ('reqproto', 'respproto'))
    for o in (pq, pr):
        eng.set_vptr(st, o, 'VFMsg')

    def proto(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(c.isobj(a[0], c.svc)), ptr_term(a[1]) == c.desc), 'the-types-of-the-method')
        return [P(pq), P(pr)][int(str(z3.simplify(a[2])))]
    C(r'^vf_proto', proto)

    def new(e, s, a, n):
        q = c.isobj(a[0], pq)
        e.oblige(s, z3.BoolVal(q or c.isobj(a[0], pr)), 'from-a-prototype')
        c.add(s, 'newq' if q else 'newr')
        e.oblige(s, s.ghost['newq' if q else 'newr'] == 1, 'made-once')
        return P(c.q if q else c.r)
    C(r'^vf_new', new)

    def rd(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(c.isobj(a[0], c.q)), ptr_term(a[1]) == body, c.type == e.off('T_POST_PB')), 'a-protobuf-body-into-the-request')
        s2 = s.copy()
        e.setghost(s, 'parsed', BV(1, 8))
        return [(s2, FALSE), (s, TRUE)]
    C(r'^google::protobuf::MessageLite::ParseFromZeroCopyStream', rd)

    def pjson(e, s, a, n):
        """the text is the body of a POST, the parameter `request` of a GET, or {} when that is empty"""
        arr, off, ln = None, None, None
        p = e.materialise(s, a[0])
        q = dict(maps.get(s, P(c.R, e.off('q_params'))).entries).get(b'request')
        if p.obj.kind == 'bytes':
            t = e.ost(s, p.obj).arr
            def is_(x, n):
                k = fresh('k', 64)
                return And(z3.BoolVal(p.off == 0 and not p.sym), z3.simplify(p.obj.size) == n + 1, Implies(z3.ULT(k, n), t.get(k) == x.get(k)))
            empty = is_(AFn(lambda i: z3.If(i == 0, BV(ord('{'), 8), BV(ord('}'), 8))), c64(2))
            post = c.type == e.off('T_POST')
            e.oblige(s, Implies(post, If_(blen == 0, empty, is_(bt, blen))), 'the-text-of-the-body')
            if q is not None:
                has, o = q
                w = get_str(e, s, P(o, 32))
                wl = z3.If(has, w.len, c64(0))
                e.oblige(s, Implies(Not(post), If_(wl == 0, empty, is_(str_arr(e, s, w), w.len))), 'the-text-of-the-parameter')
            else:
                e.oblige(s, post, 'the-text-of-the-parameter')
        else:
            e.oblige(s, z3.BoolVal(False), 'a-text')
        e.oblige(s, c.type != e.off('T_POST_PB'), 'json-unless-protobuf')
        s2 = s.copy()
        d = fresh('document', 64)
        s.assume(d != 0)
        c.add(s, 'docs')
        s.ghost['doc'] = d
        return [(s2, c64(0)), (s, d)]
    C(HR + r'ParseJson', pjson, trusted=False)

    def j2p(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == s.ghost.get('doc', c64(0)), ptr_term(a[0]) != 0, z3.BoolVal(c.isobj(a[1], c.q))), 'the-document-into-the-request')
        s2 = s.copy()
        e.setghost(s, 'parsed', BV(1, 8))
        k, k2 = fresh('ret', 32), fresh('ret', 32)
        s2.assume(k2 < 0)
        s.assume(k >= 0)
        return [(s2, k2), (s, k)]
    C(r'^sofa::pbrpc::jsonobject2pb', j2p)

    def fail(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(c.is_r(a[0])), c.isstream(e, s, a[1])), 'answers-this-request')
        e.setghost(s, 'code', a[2])
        c.add(s, 'fail')
    C(RR + r'SendFailedResponse', fail, trusted=False)

    def mkcntl(e, s, a, n):
        c.cntl = a[0].obj
        c.I = e.new_obj(s, 'impl', 'cells', size=e.off('SZ_I'))
        e.store(s, e.padd(s, a[0], e.off('o_impl')), ('ptr',), P(c.I))
        for k, w in (('i_timeout', 64), ('i_code', 32), ('i_http', 8), ('i_seq', 64)):
            e.store(s, P(c.I, e.off(k)), ('i', w), BV(0, w))
        for k in ('i_uresp', 'i_aresp'):
            e.store(s, P(c.I, e.off(k)), ('i', 32), BV(e.off('C_AUTO') & 0xffffffff, 32))
    C(r'^sofa::pbrpc::RpcController::RpcController\(\)', mkcntl)

    def call(e, s, a, n):
        f = lambda k, w=64: e.load(s, P(c.I, e.off(k)), ('i', w))
        at = lambda k, o: ptr_term(e.load(s, P(c.I, e.off(k)), ('ptr',))) == ptr_term(P(c.R, e.off(o)))
        e.oblige(s, z3.BoolVal(c.is_r(a[0]) and c.isobj(a[1], c.B) and isinstance(a[2], P) and a[2].obj is c.cntl and c.isobj(a[3], c.q) and c.isobj(a[4], c.r)), 'hands-over-what-it-made')
        e.oblige(s, ptr_term(e.load(s, P(c.I, e.off('i_stream')), ('ptr',))) == c.stream, 'answers-go-to-the-connection-it-came-from')
        e.oblige(s, c.samestr(e, s, get_str(e, s, P(c.I, e.off('i_method'))), marr, mlen), 'identified-as-requested')
        e.oblige(s, And(f('i_recv') == recv, f('i_timeout') == 0), 'the-time-it-came-and-no-deadline')
        e.oblige(s, And(f('i_http', 8) == 1, at('i_hpath', 'q_path'), at('i_hparams', 'q_params'), at('i_hheads', 'q_heads')), 'the-service-sees-path-parameters-and-headers')
        c.add(s, 'call')
    C(RR + r'CallMethod', call, trusted=False)
    for s, r in eng.call(st, eng.find(HR + r'ProcessRequest'), [P(c.R), P(c.wp), P(c.pp)]):
        eng.cover(s)
        g = s.ghost
        eng.oblige(s, g['call'] + g['fail'] + g['inner'] == 1, 'dispatched-answered-or-routed-once')
        eng.oblige(s, (g['inner'] == 1) == Or(g['split'] == 0, g['found'] == 0), 'routed-when-it-names-no-method')
        eng.oblige(s, Implies(g['fail'] == 1, And(g['code'] == eng.off('E_PARSE'), g['parsed'] == 0)), 'with-the-error-that-applies')
        eng.oblige(s, Implies(g['call'] == 1, And(g['parsed'] == 1, g['newr'] == 1, g['del_q'] == 0, g['del_r'] == 0)), 'nothing-freed-that-was-handed-over')
        eng.oblige(s, Implies(g['call'] == 0, And(g['del_q'] == g['newq'], g['del_r'] == g['newr'])), 'nothing-leaks-after-an-error')
        eng.oblige(s, And(z3.ULE(g['docs'], 1), ptr_term(eng.load(s, P(c.R, eng.off('q_json')), ('ptr',))) == g.get('doc', c64(0)) if 'doc' in g else TRUE), 'the-document-is-kept-with-the-request')


def If_(a, b, c_):
    return And(Implies(a, b), Implies(Not(a), c_))


@PROP.job('InnerProcess', 'http')
def j_inner(eng):
    c, st = hbase(eng)
    C = eng.contract
    z = c64(0)
    st.ghost.update({'route': z, 'fail': z, 'taken': BV(0, 8), 'web': BV(0, 8)})
    srv, web = fresh('server', 64), fresh('webservice', 64)
    st.assume(And(srv != 0, web != 0))
    C(r'^sofa::pbrpc::ServicePool::RpcServer\(\)', lambda e, s, a, n: (e.oblige(s, ptr_term(a[0]) == c.pool, 'of-its-pool'), srv)[1])

    def getweb(e, s, a, n):
        e.oblige(s, ptr_term(a[1]) == srv, 'of-its-server')
        s2 = s.copy()
        e.store(s, a[0], ('ptr',), web)
        e.setghost(s, 'web', BV(1, 8))
        e.store(s2, a[0], ('ptr',), c64(0))
        return [(s2, None), (s, None)]
    C(r'^sofa::pbrpc::RpcServerImpl::GetWebService', getweb)

    def route(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == web, ptr_term(e.load(s, a[1], ('ptr',))) == c.R.addr, c.isstream(e, s, a[2])), 'routes-this-request')
        c.add(s, 'route')
        s2 = s.copy()
        e.setghost(s, 'taken', BV(1, 8))
        return [(s2, FALSE), (s, TRUE)]
    C(r'^sofa::pbrpc::WebService::RoutePage', route, trusted=False)

    def fail(e, s, a, n):
        e.oblige(s, And(z3.BoolVal(c.is_r(a[0])), c.isstream(e, s, a[1]), a[2] == e.off('E_FOUND')), 'answers-that-there-is-no-such-method')
        c.add(s, 'fail')
    C(RR + r'SendFailedResponse', fail, trusted=False)
    for s, r in eng.call(st, eng.find(HR + r'InnerProcess'), [P(c.R), P(c.wp), P(c.pp)]):
        eng.cover(s)
        g = s.ghost
        eng.oblige(s, g['route'] == z3.If(g['web'] == 1, c64(1), c64(0)), 'offered-to-the-pages-once')
        eng.oblige(s, g['fail'] == z3.If(g['taken'] == 1, c64(0), c64(1)), 'answered-once-when-no-page-takes-it')


# ---- what is written

def printer(eng, c, st):
    """Printer and WriteBuffer as the text written: a tuple of literal bytes and (array, length) pieces per buffer"""
    C = eng.contract
    st.ghost['out'] = ()
    st.ghost['ok'] = fresh('printed', 1)

    def ctor(e, s, a, n):
        s.ghost['printer'] = (a[0], a[1])
        e.oblige(s, And(ptr_term(a[1]) == c.outp, a[2] == ord('$')), 'prints-to-the-buffer-given')
    PR = r'^(void )?google::protobuf::io::Printer::'
    C(PR + r'Printer\(', ctor)
    C(PR + r'~Printer', nop)
    C(PR + r'failed\(\) const', lambda e, s, a, n: Not(s.ghost['ok']))

    def lit(e, s, p):
        arr, off, ln = cstr(e, s, p)
        n = cval(z3.simplify(ln))
        bs = [cval(z3.simplify(arr.get(z3.simplify(off + k)))) for k in range(n)]
        return bytes(bs)

    def prt(e, s, a, n):
        t = lit(e, s, a[1])
        names, vals = a[2::2], a[3::2]
        env = {lit(e, s, k): get_str(e, s, v) for k, v in zip(names, vals)}
        parts = t.split(b'$')
        out = []
        for i, x in enumerate(parts):
            if i % 2 == 0:
                out.append(x)
            elif x == b'':
                out.append(b'$')
            else:
                if x not in env:
                    e.oblige(s, z3.BoolVal(False), 'printer-variable-defined')
                    return
                v = env[x]
                out.append((str_arr(e, s, v), v.len))
        e.setghost(s, 'out', s.ghost['out'] + tuple(out))
    C(PR + r'Print(\(|<)', prt)

    def raw(e, s, a, n):
        v = get_str(e, s, a[1])
        e.setghost(s, 'out', s.ghost['out'] + ((str_arr(e, s, v), v.len),))
    C(PR + r'PrintRaw\(std', raw)
    C(PR + r'PrintRaw\(char const\*', lambda e, s, a, n: e.setghost(s, 'out', s.ghost['out'] + (lit(e, s, a[1]),)))
    C(PR + r'(WriteRaw)\(', lambda e, s, a, n: e.setghost(s, 'out', s.ghost['out'] + ((e.ost(s, e.materialise(s, a[1]).obj).arr, sx(a[2])),)))


def message(out):
    """(status segments, [(header name, value segments)], body segments) of a well-formed HTTP response head, or None"""
    segs = []
    for x in out:
        if isinstance(x, bytes):
            if segs and isinstance(segs[-1], bytes):
                segs[-1] += x
            else:
                segs.append(x)
        else:
            segs.append(x)
    lines, cur = [], []
    body = None
    for i, x in enumerate(segs):
        if body is not None:
            body.append(x)
            continue
        if not isinstance(x, bytes):
            cur.append(x)
            continue
        while True:
            k = x.find(b'\r\n')
            if k < 0:
                if x:
                    cur.append(x)
                break
            if x[:k]:
                cur.append(x[:k])
            x = x[k + 2:]
            if not cur:
                body = [x] if x else []
                break
            lines.append(cur)
            cur = []
    if body is None or cur or not lines:
        return None
    heads = []
    for l in lines[1:]:
        if not isinstance(l[0], bytes) or b': ' not in l[0]:
            return None
        nm, rest = l[0].split(b': ', 1)
        heads.append((nm, ([rest] if rest else []) + l[1:]))
    return lines[0], heads, body


def decimal(segs, x):
    """the segments are the decimal digits of x"""
    if len(segs) != 1 or isinstance(segs[0], bytes):
        return FALSE
    arr, ln = segs[0]
    f = z3.Function('declen%d' % x.size(), x.sort(), z3.BitVecSort(64))
    g = z3.Function('decdig%d' % x.size(), x.sort(), z3.BitVecSort(64), z3.BitVecSort(8))
    k = fresh('k', 64)
    return And(ln == f(x), Implies(z3.ULT(k, ln), arr.get(k) == g(x, k)))


def issegs(e, s, segs, arr, ln):
    if len(segs) == 0:
        return ln == 0
    if len(segs) != 1 or isinstance(segs[0], bytes):
        return FALSE
    k = fresh('k', 64)
    return And(segs[0][1] == ln, Implies(z3.ULT(k, ln), segs[0][0].get(k) == arr.get(k)))


@PROP.job('RenderResponse', 'http')
def j_render(eng):
    """an answer is a status line, headers with the type and the exact length, and the body itself"""
    c, st0 = hbase(eng)
    out = eng.new_obj(st0, 'output', 'cells', size=64)
    c.outp = out.addr
    printer(eng, c, st0)
    b = eng.new_obj(st0, 'body', 'cells', size=32)
    v = get_str(eng, st0, P(b))
    arr, ln = str_arr(eng, st0, v), v.len
    types = {'R_JSON': b'application/json', 'R_PB': b'application/protobuf', 'R_HTML': b'text/html; charset=UTF-8'}
    for k, want in types.items():
        st = st0.copy()
        for s, r in eng.call(st, eng.find(HR + r'RenderResponse\(google::protobuf::io::ZeroCopyOutputStream\*, sofa::pbrpc::HTTPRpcRequest::RenderType'), [P(out), BV(eng.off(k), 32), P(b)]):
            eng.cover(s)
            r = r if z3.is_bool(r) else r != 0
            eng.oblige(s, r == s.ghost['ok'], 'fails-iff-it-could-not-be-written')
            m = message(s.ghost['out'])
            eng.oblige(s, z3.BoolVal(m is not None), 'well-formed')
            if m is None:
                continue
            status, heads, body = m
            names = [n for n, x in heads]
            eng.oblige(s, z3.BoolVal(status == [b'HTTP/1.1 200 OK']), 'status-line')
            eng.oblige(s, z3.BoolVal(len(names) == len(set(names)) and dict(heads).get(b'Content-Type') == [want]), 'the-type')
            eng.oblige(s, decimal(dict(heads).get(b'Content-Length', []), ln), 'the-exact-length')
            eng.oblige(s, issegs(eng, s, body, arr, ln), 'the-body')


@PROP.job('RenderHead', 'http')
def j_head(eng):
    c, st = hbase(eng)
    out = eng.new_obj(st, 'output', 'cells', size=64)
    c.outp = out.addr
    printer(eng, c, st)
    w = eng.new_obj(st, 'response', 'cells', size=eng.off('SZ_W'))
    cobj = eng.new_obj(st, 'content', 'cells', size=256)
    eng.set_vptr(st, cobj, 'VFWriteBuffer')
    content, size = cobj.addr, fresh('size', 64)
    st.assume(And(content != 0, size >= 0))
    eng.store(st, P(w, eng.off('w_content')), ('ptr',), P(cobj))
    eng.contract(r'^(sofa::pbrpc::|VF)WriteBuffer::ByteCount\(\) const', lambda e, s, a, n: (e.oblige(s, ptr_term(a[0]) == content, 'of-the-content'), size)[1])
    sl, ty = (get_str(eng, st, P(w, eng.off(k))) for k in ('w_status', 'w_type'))
    for s, r in eng.call(st, eng.find(HR + r'RenderResponse\(google::protobuf::io::ZeroCopyOutputStream\*, sofa::pbrpc::HTTPResponse'), [P(out), P(w)]):
        eng.cover(s)
        r = r if z3.is_bool(r) else r != 0
        eng.oblige(s, r == s.ghost['ok'], 'fails-iff-it-could-not-be-written')
        m = message(s.ghost['out'])
        eng.oblige(s, z3.BoolVal(m is not None), 'well-formed')
        if m is None:
            continue
        status, heads, body = m
        names = [n for n, x in heads]
        d = dict(heads)
        eng.oblige(s, issegs(eng, s, status, str_arr(eng, s, sl), sl.len), 'its-status-line')
        eng.oblige(s, And(z3.BoolVal(len(names) == len(set(names))), issegs(eng, s, d.get(b'Content-Type', [b'?']), str_arr(eng, s, ty), ty.len)), 'its-type')
        eng.oblige(s, decimal(d.get(b'Content-Length', []), size), 'the-exact-length')
        eng.oblige(s, z3.BoolVal(body == []), 'the-body-is-left-to-the-content')


def asmbase(eng):
    c, st = hbase(eng)
    C = eng.contract
    st.ghost.update({'rendered': (), 'wb': c64(0), 'into': c64(0), 'n': c64(0), 'failed': BV(0, 8)})
    C(r'^sofa::pbrpc::WriteBuffer::WriteBuffer\(', lambda e, s, a, n: e.setghost(s, 'wb', ptr_term(a[0])))
    C(r'^sofa::pbrpc::WriteBuffer::~WriteBuffer', nop)

    def rb(e, s, a, n):
        c.rbuf = a[0].obj
        s.ghost['newrb'] = ptr_term(a[0])
    C(r'^sofa::pbrpc::ReadBuffer::ReadBuffer\(\)', rb)

    def render(e, s, a, n):
        v = get_str(e, s, a[2])
        e.oblige(s, And(ptr_term(a[0]) == s.ghost['wb'], s.ghost['wb'] != 0, s.ghost['n'] == 0), 'renders-one-answer-into-its-buffer')
        s.ghost['rendered'] = (a[1], str_arr(e, s, v), v.len)
        c.add(s, 'n')
        s2 = s.copy()
        e.setghost(s2, 'failed', BV(1, 8))
        return [(s2, FALSE), (s, TRUE)]
    C(HR + r'RenderResponse\(google::protobuf::io::ZeroCopyOutputStream\*, sofa::pbrpc::HTTPRpcRequest::RenderType', render, trusted=False)

    def swap(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == s.ghost['wb'], s.ghost['n'] == 1, s.ghost['failed'] == 0), 'takes-the-rendered-answer')
        e.setghost(s, 'into', ptr_term(a[1]))
    C(r'^sofa::pbrpc::WriteBuffer::SwapOut', swap)
    c.out = eng.new_obj(st, 'result', 'cells', size=16)
    c.err = eng.new_obj(st, 'err', 'cells', size=32)
    set_str(eng, st, P(c.err), ASym('err'), c64(0))

    def post(s, want):
        g = s.ghost
        res = ptr_term(eng.load(s, P(c.out), ('ptr',)))
        eng.oblige(s, If_(g['failed'] == 1, res == 0, And(res == g['into'], res != 0, res == g.get('newrb', c64(0)), g['n'] == 1)), 'the-rendered-answer-or-none')
        if g['rendered']:
            want(s, *g['rendered'])
    return c, st, post


@PROP.job('AssembleSucceedResponse', 'http')
def j_aok(eng):
    c, st, post = asmbase(eng)
    ser, js = (ASym('serialised'), fresh('serlen', 64)), (ASym('json'), fresh('jsonlen', 64))
    for x in (ser, js):
        st.assume(z3.ULT(x[1], MAXLEN))
    eng.contract(r'^google::protobuf::MessageLite::SerializeAsString', lambda e, s, a, n: (e.oblige(s, z3.BoolVal(c.isobj(a[1], c.r)), 'the-response'), set_str(e, s, a[0], *ser))[0])
    eng.contract(r'^sofa::pbrpc::pb2json', lambda e, s, a, n: (e.oblige(s, z3.BoolVal(c.isobj(a[0], c.r)), 'the-response'), set_str(e, s, a[1], *js))[0])
    ip = eng.new_obj(st, 'implptr', 'cells', size=16)

    def want(s, ty, arr, ln):
        k = fresh('k', 64)
        pb = c.type == eng.off('T_POST_PB')
        for cond, t, (a2, l2) in ((pb, 'R_PB', ser), (Not(pb), 'R_JSON', js)):
            eng.oblige(s, Implies(cond, And(ty == eng.off(t), ln == l2, Implies(z3.ULT(k, l2), arr.get(k) == a2.get(k)))), 'answers-in-the-form-asked-for')
    for s, r in eng.call(st, eng.find(HR + r'AssembleSucceedResponse'), [P(c.out), P(c.R), P(ip), P(c.r), P(c.err)]):
        eng.cover(s)
        post(s, want)


@PROP.job('AssembleFailedResponse', 'http')
def j_afail(eng):
    c, st, post = asmbase(eng)
    code = fresh('code', 32)
    rs = eng.new_obj(st, 'reason', 'cells', size=32)
    get_str(eng, st, P(rs))
    esc = (ASym('escaped'), fresh('esclen', 64))
    st.assume(z3.ULT(esc[1], 1 << 39))

    def rep(e, s, a, n):
        e.oblige(s, z3.BoolVal(isinstance(a[1], P) and a[1].obj is rs and literal(e, s, get_str(e, s, a[2])) == b'"' and literal(e, s, get_str(e, s, a[3])) == b'\\"'), 'quotes-in-the-reason-are-escaped')
        set_str(e, s, a[0], *esc)
    eng.contract(r'^sofa::pbrpc::StringUtils::replace_all', rep)
    dl = z3.Function('declen32', z3.BitVecSort(32), z3.BitVecSort(64))
    dd = z3.Function('decdig32', z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(8))

    def want(s, ty, arr, ln):
        pre = b'"ERROR: '
        n0, n1 = len(pre), z3.simplify(c64(len(pre)) + dl(code))
        k = fresh('k', 64)
        eng.oblige(s, And(ty == eng.off('R_JSON'), ln == n1 + 2 + esc[1] + 1), 'a-json-text-of-that-length')
        eng.oblige(s, And(*[arr.get(c64(i)) == x for i, x in enumerate(pre)], Implies(z3.ULT(k, dl(code)), arr.get(c64(n0) + k) == dd(code, k))), 'says-the-error-code')
        eng.oblige(s, And(arr.get(n1) == ord(':'), arr.get(n1 + 1) == ord(' '), Implies(z3.ULT(k, esc[1]), arr.get(n1 + 2 + k) == esc[0].get(k)), arr.get(n1 + 2 + esc[1]) == ord('"')), 'and-the-reason')
    for s, r in eng.call(st, eng.find(HR + r'AssembleFailedResponse'), [P(c.out), P(c.R), code, P(rs), P(c.err)]):
        eng.cover(s)
        post(s, want)


@PROP.job('SendResponse', 'http')
def j_send(eng):
    """a page is sent as one answer: its head and then its content"""
    c, st, post = asmbase(eng)
    C = eng.contract
    w = eng.new_obj(st, 'response', 'cells', size=eng.off('SZ_W'))
    content = fresh('content', 64)
    st.assume(content != 0)
    eng.store(st, P(w, eng.off('w_content')), ('ptr',), content)
    st.ghost.update({'head': BV(0, 8), 'step': c64(0), 'sent': c64(0)})

    def render(e, s, a, n):
        e.oblige(s, And(ptr_term(a[0]) == s.ghost['wb'], z3.BoolVal(c.isobj(a[1], w))), 'the-head-of-this-page')
        s2 = s.copy()
        e.setghost(s, 'head', BV(1, 8))
        return [(s2, FALSE), (s, TRUE)]
    C(HR + r'RenderResponse\(google::protobuf::io::ZeroCopyOutputStream\*, sofa::pbrpc::HTTPResponse', render, trusted=False)

    def swap(e, s, a, n):
        g = s.ghost
        e.oblige(s, And(ptr_term(a[1]) == g.get('newrb', c64(0)), g['head'] == 1), 'into-the-answer')
        e.oblige(s, Or(And(ptr_term(a[0]) == g['wb'], g['step'] == 0), And(ptr_term(a[0]) == content, g['step'] == 1)), 'the-head-then-the-content')
        c.add(s, 'step')
    C(r'^sofa::pbrpc::WriteBuffer::SwapOut', swap)

    def send(e, s, a, n):
        g = s.ghost
        e.oblige(s, And(z3.BoolVal(c.is_r(a[0])), c.isstream(e, s, a[1]), ptr_term(e.load(s, a[2], ('ptr',))) == g.get('newrb', c64(0)), g['step'] == 2, g['sent'] == 0), 'sends-the-whole-answer')
        c.add(s, 'sent')
    C(RR + r'SendSucceedResponse', send, trusted=False)
    for s, r in eng.call(st, eng.find(HR + r'SendResponse\('), [P(c.R), P(c.wp), P(w)]):
        eng.cover(s)
        eng.oblige(s, s.ghost['sent'] == z3.If(s.ghost['head'] == 1, c64(1), c64(0)), 'answered-once')


PROP.native('server', 'server.cc', args=['http', '60'], thorough_args=['http', '1500'],
            what='real server against a scripted HTTP client: every request is answered once with a well-formed answer of the right content', **F01.ALL)
