// The real server library against a scripted client on the loopback interface.  argv[1]: binary, http, limits; argv[2]: cases
#include "net.h"
#include "vfe.pb.h"
#include <sofa/pbrpc/pbrpc.h>
using namespace vh; using namespace net;
using namespace sofa::pbrpc;
static std::mutex mu; static std::map<int, int> calls;
static void trouble(const string& k, const string& s) { std::lock_guard<std::mutex> _(mu); fail(k.c_str(), s); }
static void answer(const vfe::Req* q, vfe::Rsp* r) { r->set_text(q->text()); if (q->has_blob()) r->set_blob(q->blob()); r->set_n(q->n()); for (int i = 0; i < q->list_size(); i++) r->add_list(q->list(i)); }
struct EchoImpl : vfe::Echo {
    void note(google::protobuf::RpcController* c, const vfe::Req* q) {
        std::lock_guard<std::mutex> _(mu); calls[q->n()]++;
        sofa::pbrpc::RpcController* s = (sofa::pbrpc::RpcController*)c;
        if (s->LocalAddress().compare(0, 10, "127.0.0.1:")) fail("controller-address", "local address " + s->LocalAddress());
        if (s->RemoteAddress().compare(0, 10, "127.0.0.1:")) fail("controller-address", "remote address " + s->RemoteAddress());
        if (s->RemoteAddress() == s->LocalAddress()) fail("controller-address", "both addresses " + s->RemoteAddress());
    }
    void Call(google::protobuf::RpcController* c, const vfe::Req* q, vfe::Rsp* r, google::protobuf::Closure* d) { note(c, q); answer(q, r); d->Run(); }
    void Fast(google::protobuf::RpcController* c, const vfe::Req* q, vfe::Rsp* r, google::protobuf::Closure* d) { note(c, q); answer(q, r); d->Run(); }
    void Fail(google::protobuf::RpcController* c, const vfe::Req* q, vfe::Rsp* r, google::protobuf::Closure* d) { note(c, q); c->SetFailed("no: " + q->text()); d->Run(); }
    void Later(google::protobuf::RpcController* c, const vfe::Req* q, vfe::Rsp* r, google::protobuf::Closure* d) { note(c, q); answer(q, r); int us = q->n() * 37 % 20000; std::thread([=] { nap(us); d->Run(); }).detach(); }
};
static string rtext() { return rnd(3) ? rfrom("abcdefghijklmnopqrstuvwxyz", rnd(40)) : rfrom("xyz \"\\/{}[]:,", rnd(30)); }
static int free_port() { int p; int s = listen_any(&p); close(s); return p; }
static RpcServer* start(RpcServerOptions o, int* port) {
    for (int k = 0; k < 20; k++) {
        *port = free_port(); RpcServer* s = new RpcServer(o); s->RegisterService(new EchoImpl);
        if (s->Start("127.0.0.1:" + S(*port))) return s;
        delete s;
    }
    fprintf(stderr, "cannot start a server\n"); exit(3);
}
enum { CALL, FAST, FAILING, LATER, NOMETHOD, NOSERVICE, BADNAME, BADBODY, BADZIP, EXPIRED };
static int next_id = 1;
struct One { int act, id, comp, want; uint64_t seq; vfe::Req q; int got; };
static string ask(One& o) {
    RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(o.seq);
    const char* names[] = {"vfe.Echo.Call", "vfe.Echo.Fast", "vfe.Echo.Fail", "vfe.Echo.Later", "vfe.Echo.Nope", "vfe.Nope.Call", "nodots", "vfe.Echo.Call", "vfe.Echo.Call", "vfe.Echo.Call"};
    m.set_method(names[o.act]);
    if (o.comp) m.set_compress_type((CompressType)o.comp);
    if (o.want) m.set_expected_response_compress_type((CompressType)o.want);
    if (rnd(2)) m.set_server_timeout(8000 + rnd(1000));
    string meta, data; m.SerializeToString(&meta); o.q.SerializeToString(&data);
    if (o.act == BADBODY) data = "\xff\xff\xff";
    string d = pack(data, o.comp == 3 ? 2 : o.comp);
    if (o.act == BADZIP) d = "this is not compressed";
    return frame(meta, d);
}
static void binary_case(int port) {
    int n = 1 + rnd(rnd(4) ? 6 : 40), style = rnd(5), ending = rnd(5), conns = 1;
    std::vector<One> v(n); string out; std::map<uint64_t, One*> by; std::ostringstream d;
    d << "binary n=" << n << " style=" << style << " ending=" << ending << " acts=";
    for (auto& o : v) {
        o.act = rnd(3) ? rnd(4) : rnd(9); o.id = next_id++; o.seq = rnd(4) ? (uint64_t)o.id : (uint64_t)o.id << 33 | 5; o.got = 0;
        o.comp = o.act == BADBODY ? 0 : o.act == BADZIP ? 1 : rnd(3) ? 0 : 1 + rnd(2); o.want = rnd(3) ? 0 : 1 + rnd(2);
        o.q.set_text(rtext()); o.q.set_n(o.id); if (rnd(3)) o.q.set_blob(rbytes(rnd(5) ? rnd(300) : rnd(9) ? rnd(20000) : rnd(300000)));
        for (int k = rnd(4); k-- > 0;) o.q.add_list((int64_t)rng());
        by[o.seq] = &o; out += ask(o); d << o.act << ",";
    }
    string bad;
    if (ending == 1) { int32_t ms = rnd(2) ? -1 - (int32_t)rnd(1000) : 5 + rnd(9); int64_t ds = rnd(2) ? -3 - (int64_t)rnd(100) : 7; bad = header(ms, ds, rnd(3) ? ms + ds + (ms >= 0 && ds >= 0) : (int64_t)(rng() | 1) % 1000 - 1500); }
    if (ending == 2) bad = "SOFB" + string(40, 'x');
    if (ending == 3) { string x = frame(string(20, '\xff'), "abc"); bad = x; }
    if (ending == 4) bad = header(0, 0, 0);
    Case(d.str());
    int fd = dial(port, rnd(3) ? 0 : 4096); if (fd < 0) { trouble("connect", "server refuses a connection"); return; }
    std::mt19937_64 r(rng()); std::atomic<bool> stop(false);
    std::thread w([&] { wr_chunks(fd, out, r, style); });
    string buf; int got = 0; int64_t t0 = now_ms(); bool closed = false; size_t lim = rnd(3) ? 65536 : 1 + rnd(2000); Frame f; string why; int k = 0;
    auto take = [&] {
        while ((k = cut(buf, &f, &why)) == 1) {
            if (f.m.type() != RpcMeta::RESPONSE) trouble("response-type", "response meta type " + S(f.m.type()));
            if (ending == 4 && f.m.sequence_id() == 0) { got++; if (!f.m.failed()) trouble("empty-request", "empty request answered with success"); continue; }
            if (!by.count(f.m.sequence_id())) { trouble("response-unasked", "response with an id nobody used " + S(f.m.sequence_id())); continue; }
            One& o = *by[f.m.sequence_id()]; got++;
            if (o.got++) trouble("response-twice", "two responses for one request");
            if (o.act <= LATER && o.act != FAILING) {
                if (f.m.failed()) { trouble("response-failed", "request failed: " + f.m.reason() + " act " + S(o.act)); continue; }
                if ((int)f.m.compress_type() != o.want) trouble("response-compress", "compress type " + S(f.m.compress_type()) + " wanted " + S(o.want));
                string raw; unpack(f.data, f.m.compress_type(), &raw); vfe::Rsp p, e; answer(&o.q, &e);
                string a, b; e.SerializeToString(&b); if (!p.ParseFromString(raw)) { trouble("response-body", "response does not parse " + esc(f.data)); continue; }
                p.SerializeToString(&a); if (a != b) trouble("response-body", "response body differs: got " + esc(a, 200) + " wanted " + esc(b, 200));
            } else {
                if (!f.m.failed()) { trouble("response-failed", "request not failed, act " + S(o.act)); continue; }
                int ec = f.m.error_code(), wc = o.act == FAILING ? 0 : o.act == BADNAME ? RPC_ERROR_PARSE_METHOD_NAME : o.act == BADBODY || o.act == BADZIP ? RPC_ERROR_PARSE_REQUEST_MESSAGE : RPC_ERROR_FOUND_METHOD;
                if (o.act == FAILING) { wc = RPC_ERROR_FROM_USER; if (f.m.reason() != "no: " + o.q.text()) trouble("response-reason", "reason " + esc(f.m.reason())); }
                if (ec != wc) trouble("response-code", "error code " + S(ec) + " wanted " + S(wc) + " act " + S(o.act));
                if (!f.data.empty()) trouble("response-body", "failed response carries data");
            }
        }
        if (k < 0) trouble("response-framing", why);
    };
    int expect = n + (ending == 4);
    if (ending == 4) { w.join(); wr(fd, bad); }
    while (got < expect && k >= 0 && now_ms() - t0 < 15000) { int q = rd(fd, buf, 50, lim); if (q < 0) { closed = true; break; } take(); }
    if (w.joinable()) w.join();
    if (got < expect) trouble("response-missing", S(expect - got) + " of " + S(expect) + " responses missing" + (closed ? ", connection closed" : ""));
    for (int j = 0; j < 2 && !closed; j++) { if (rd(fd, buf, 3) < 0) closed = true; take(); }
    if (closed) trouble("closed-early", "the server closed a connection with well-formed requests");
    if (ending >= 1 && ending <= 3 && !closed) {
        wr_chunks(fd, bad, r, rnd(4)); t0 = now_ms(); size_t before = buf.size();
        while (!closed && now_ms() - t0 < 4000) if (rd(fd, buf, 50) < 0) closed = true;
        if (!closed) trouble("malformed-accepted", "malformed bytes do not end the connection: " + esc(bad));
        if (buf.size() != before) trouble("malformed-answered", "malformed bytes are answered");
    }
    close(fd);
    std::lock_guard<std::mutex> _(mu);
    for (auto& o : v) if (calls[o.id] != (o.act <= LATER)) fail("run-count", "method run " + S(calls[o.id]) + " times, act " + S(o.act));
}
static string json_str(const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
static string url_enc(const string& s) { string r; char b[8]; for (unsigned char c : s) if (isalnum(c)) r += c; else { sprintf(b, "%%%02X", c); r += b; } return r; }
struct H { int kind, id; string text, raw; bool ok; };
// kind: 0 GET json, 1 POST json, 2 POST protobuf, 3 unknown method, 4 bad json, 5 bad protobuf, 6 failing method
static void http_case(int port) {
    int n = 1 + rnd(8), style = rnd(5), ending = rnd(7); std::vector<H> v(n); string out; std::ostringstream d; d << "http n=" << n << " style=" << style << " ending=" << ending << " kinds=";
    for (auto& h : v) {
        h.kind = rnd(7); h.id = next_id++; h.text = rfrom("abcdefghij KLM_09", rnd(rnd(6) ? 20 : 3000)); d << h.kind << ",";
        string hd, body, path = h.kind == 3 ? "/vfe.Echo.Nope" : h.kind == 6 ? "/vfe.Echo.Fail" : "/vfe.Echo.Call";
        string js = "{\"text\":" + json_str(h.text) + ",\"n\":" + S(h.id) + "}";
        vfe::Req q; q.set_text(h.text); q.set_n(h.id);
        for (int k = rnd(3); k-- > 0;) hd += rfrom("ABCxyz-", 1 + rnd(10)) + ": " + rfrom("value :/;=0", rnd(40)) + "\r\n";
        if (h.kind == 0) { h.raw = "GET " + path + "?a=b&request=" + url_enc(js) + (rnd(2) ? "&z=1" : "") + (rnd(2) ? "#frag" : "") + " HTTP/1.1\r\n" + hd + "\r\n"; }
        else {
            if (h.kind == 2 || h.kind == 5) { hd += "Accept: application/protobuf\r\n"; q.SerializeToString(&body); if (h.kind == 5) body = "\xff\xff\xff\xff"; }
            else body = h.kind == 4 ? "{\"text\":" : js;
            h.raw = "POST " + path + " HTTP/1.1\r\n" + hd + "Content-Length: " + S(body.size()) + "\r\n\r\n" + body;
        }
        out += h.raw;
    }
    Case(d.str());
    int fd = dial(port); if (fd < 0) { trouble("connect", "server refuses a connection"); return; }
    // one request after the other, or all at once: then answers may come in any order (finding http-pipeline-order)
    bool serial = rnd(2); std::mt19937_64 r(rng()); string buf; bool closed = false; std::vector<string> got;
    auto collect = [&](size_t want) {
        int64_t t0 = now_ms();
        while (got.size() < want && !closed && now_ms() - t0 < 15000) {
            for (;;) {
                size_t e = buf.find("\r\n\r\n"); if (e == string::npos) break;
                string hd = buf.substr(0, e + 2); size_t p = hd.find("Content-Length: "); if (p == string::npos) { trouble("http-length", "no Content-Length: " + esc(hd)); closed = true; break; }
                size_t len = atol(hd.c_str() + p + 16); if (buf.size() < e + 4 + len) break;
                got.push_back(buf.substr(e + 4, len)); buf.erase(0, e + 4 + len);
                if (hd.compare(0, 9, "HTTP/1.1 ")) trouble("http-status", "bad status line " + esc(hd));
            }
            if (got.size() < want && rd(fd, buf, 50) < 0) closed = true;
        }
    };
    auto right = [&](const H& h, const string& body) {
        bool err = body.compare(0, 8, "\"ERROR: ") == 0;
        if (h.kind == 3) return body.find("\"text\"") == string::npos;
        if (h.kind > 3) return err && (h.kind != 6 || body.find("no: " + h.text) != string::npos);
        vfe::Rsp p; if (err) return false;
        if (h.kind == 2) return p.ParseFromString(body) && p.text() == h.text && p.n() == h.id;
        return body.find(json_str(h.text)) != string::npos && body.find("\"n\":" + S(h.id)) != string::npos;
    };
    if (serial) for (size_t i = 0; i < v.size() && !closed; i++) {
        wr_chunks(fd, v[i].raw, r, style); collect(i + 1);
        if (got.size() > i && !right(v[i], got[i])) trouble("http-answer", "wrong answer " + esc(got[i]) + " to " + esc(v[i].raw));
    } else {
        std::thread w([&] { wr_chunks(fd, out, r, style); }); collect(v.size()); w.join();
        std::vector<bool> used(got.size());
        for (int pass = 0; pass < 2 && got.size() == v.size(); pass++) for (auto& h : v) if ((h.kind < 3 || h.kind == 6) == !pass) {
            size_t i = 0; while (i < got.size() && (used[i] || !right(h, got[i]))) i++;
            if (i < got.size()) used[i] = true; else trouble("http-answer", "no right answer to " + esc(h.raw));
        }
    }
    int64_t t0;
    if (got.size() < v.size()) trouble("http-missing", S(v.size() - got.size()) + " responses missing" + (closed ? ", closed" : ""));
    if (!buf.empty()) trouble("http-extra", "bytes nobody asked for: " + esc(buf));
    if (!closed && ending >= 1 && ending <= 3) {
        string bad = ending == 1 ? "POSTx/ HTTP/1.1\r\n\r\n" : ending == 2 ? "GET nopath HTTP/1.1\r\n\r\n" : "POST /vfe.Echo.Call HTTP/1.1\r\nContent-Length: 12x\r\n\r\n";
        wr(fd, bad); t0 = now_ms(); while (!closed && now_ms() - t0 < 4000) if (rd(fd, buf, 50) < 0) closed = true;
        if (!closed) trouble("http-malformed", "malformed request does not end the connection: " + esc(bad));
    } else if (!closed && ending >= 4) {
        // a body of which only a part arrives: the request must not be run
        int id = next_id++; string js = "{\"text\":\"early\",\"n\":" + S(id) + "}", len = ending == 4 ? S(js.size() + 1 + rnd(50)) : ending == 5 ? S((1ULL << 32) + js.size()) : S(1ULL << 31);
        wr(fd, "POST /vfe.Echo.Call HTTP/1.1\r\nContent-Length: " + len + "\r\n\r\n" + js); rd(fd, buf, 60);
        std::lock_guard<std::mutex> _(mu); if (calls[id]) fail("http-early", "a request is run before its body of " + len + " bytes has arrived");
    }
    close(fd);
    std::lock_guard<std::mutex> _(mu);
    for (auto& h : v) if (calls[h.id] != (h.kind <= 2 || h.kind == 6)) fail("run-count", "method run " + S(calls[h.id]) + " times, kind " + S(h.kind));
}
static void pipeline_case(int port) {
    Case("http pipeline: GET Later (20 ms), then GET Call"); int fd = dial(port), id = 1000001, us = 0; string buf;
    while ((us = id * 37 % 20000) < 19000) id++;
    wr(fd, "GET /vfe.Echo.Later?request={\"text\":\"first\",\"n\":" + S(id) + "} HTTP/1.1\r\n\r\nGET /vfe.Echo.Call?request={\"text\":\"second\",\"n\":1000000} HTTP/1.1\r\n\r\n");
    int64_t t0 = now_ms(); while ((buf.find("first") == string::npos || buf.find("second") == string::npos) && now_ms() - t0 < 4000) if (rd(fd, buf, 50) < 0) break;
    size_t a = buf.find("first"), b = buf.find("second"); if (a == string::npos || b == string::npos) trouble("http-missing", "a pipelined request is not answered");
    else if (b < a) trouble("http-pipeline-order", "the second of two pipelined requests is answered first");
    close(fd);
}
static bool alive(int port, int fd) { One o; o.act = CALL; o.id = next_id++; o.seq = o.id; o.comp = o.want = o.got = 0; o.q.set_text("ping"); o.q.set_n(o.id); wr(fd, ask(o)); string b, why; Frame f; int64_t t0 = now_ms();
    while (now_ms() - t0 < 4000) { int n = rd(fd, b, 50); if (n < 0) return false; if (cut(b, &f, &why) == 1) return f.m.sequence_id() == o.seq && !f.m.failed(); } return false; }
static void limits_case() {
    RpcServerOptions o; o.work_thread_num = 2; int lim = 1 + rnd(4); o.max_connection_count = lim; int port; Case("limits " + S(lim));
    RpcServer* s = start(o, &port); std::vector<int> fds;
    for (int i = 0; i < lim; i++) { int fd = dial(port); fds.push_back(fd); if (!alive(port, fd)) trouble("limit-early", "connection " + S(i + 1) + " of at most " + S(lim) + " is not served"); }
    if (s->ConnectionCount() != lim) trouble("connection-count", "count " + S(s->ConnectionCount()) + " with " + S(lim) + " connections");
    int x = dial(port); if (x >= 0 && alive(port, x)) trouble("limit-exceeded", "a connection over the limit of " + S(lim) + " is served"); close(x);
    close(fds.back()); fds.pop_back(); int64_t t0 = now_ms(); while (s->ConnectionCount() != lim - 1 && now_ms() - t0 < 4000) nap(1000);
    if (s->ConnectionCount() != lim - 1) trouble("connection-count", "count " + S(s->ConnectionCount()) + " after one of " + S(lim) + " connections closed");
    x = dial(port); fds.push_back(x); if (!alive(port, x)) trouble("limit-stuck", "a connection within the limit is not served after another closed");
    s->Stop(); for (int fd : fds) { string b; t0 = now_ms(); int n = 0; while (n >= 0 && now_ms() - t0 < 4000) n = rd(fd, b, 50); if (n >= 0) trouble("stop-open", "a connection stays open after Stop"); close(fd); }
    x = dial(port); if (x >= 0) { string b; if (alive(port, x)) trouble("stop-serving", "the server serves after Stop"); close(x); }
    if (s->ConnectionCount() != 0) trouble("connection-count", "count " + S(s->ConnectionCount()) + " after Stop");
    if (!s->Start("127.0.0.1:" + S(port))) trouble("restart", "the server cannot be started again"); else { x = dial(port); if (!alive(port, x)) trouble("restart", "the restarted server does not serve"); close(x); }
    delete s;
}
int main(int c, char** a) {
    init(); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); string part = a[1]; int n = atoi(a[2]);
    if (part == "limits") { for (int i = 0; i < n; i++) limits_case(); return done(); }
    RpcServerOptions o; o.work_thread_num = 4; int port; RpcServer* s = start(o, &port);
    if (part == "http") pipeline_case(port);
    for (int i = 0; i < n && g_failkeys.size() < 5; i++) part == "binary" ? binary_case(port) : http_case(port);
    s->Stop(); nap(30000); delete s;
    return done();
}
