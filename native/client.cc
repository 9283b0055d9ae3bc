// The real client library against a scripted peer on the loopback interface.  argv[1]: which part (framing, match, finish, outgoing)
#include "net.h"
#include "vfe.pb.h"
#include <sofa/pbrpc/pbrpc.h>
using namespace vh; using namespace net;
using namespace sofa::pbrpc;
static string part;
enum Act { OK, FAILED, NOFAILED, NOCODE, NOREASON, DUP, TWICE_DIFF, BADDATA, TYPEREQ, SILENT, EMPTYDATA, LATE, ZERODATA_META, FAILZERO };
struct Plan { int act; int code; string reason, reply, blob; int comp; bool sync; int timeout; int method; int reqcomp, rspcomp;
    // outcome
    std::atomic<int> done; int err; string etext; bool failed; string got, gotblob; int64_t t0, t1; string sent; };
struct Round { std::map<int, std::shared_ptr<Plan> > plans; int style; int junk; int ending; int keepopen; std::mt19937_64 r; int expect; };
static std::shared_ptr<Round> R; static std::mutex mu;
static std::atomic<int> seen_requests(0), wire_conns(0);
static string peer_trouble; static std::map<uint64_t, int> seqs;
static void trouble(const string& k, const string& s) { std::lock_guard<std::mutex> _(mu); fail(k.c_str(), s); }
static string rsp_data(const Plan& p) { vfe::Rsp r; r.set_text(p.reply); r.set_blob(p.blob); string s; r.SerializeToString(&s); return pack(s, p.comp); }
static string rsp_meta(uint64_t seq, int failed, bool code, int c, bool reason, const string& rs, int comp, int type = 1) {
    RpcMeta m; m.set_type((RpcMeta::Type)type); m.set_sequence_id(seq);
    if (failed >= 0) m.set_failed(failed); if (code) m.set_error_code(c); if (reason) m.set_reason(rs); if (comp) m.set_compress_type((CompressType)comp);
    string s; m.SerializeToString(&s); return s;
}
static void junk(string& out, std::mt19937_64& r) {
    switch (r() % 5) {
    case 0: out += frame(rsp_meta(1000000 + r() % 1000, 0, false, 0, false, "", 0), "nobody asked"); break;     // unknown sequence id
    case 1: out += frame(string("\xff\xff\xff\x01\x02", 5), "x"); break;                                     // meta that does not parse
    case 2: { string d(r() % 9000, 'j'); out += frame(rsp_meta(2000000, 1, true, 5, true, "junk", 0), d); break; }
    case 3: out += frame("", ""); break;                                                               // empty message
    case 4: out += frame("", string(r() % 40, 'q')); break;
    }
}
struct Pending { uint64_t seq; std::shared_ptr<Plan> p; };
static void serve(int fd, std::shared_ptr<Round> rd_) {
    string buf; std::vector<Pending> q; Round& R = *rd_; std::mt19937_64& r = R.r; string tail; int64_t lastin = now_ms(); string dead;
    size_t rdlim = part == "outgoing" && r() % 2 ? 1 + r() % 3000 : 65536;
    int got = 0; bool closed = false;
    while (got < R.expect) {
        int n = rd(fd, buf, 20, rdlim);
        if (n < 0) { closed = true; break; }
        if (n > 0) lastin = now_ms(); else if (now_ms() - lastin > 6000) break;
        if (rdlim < 100) nap(50);
        Frame f; string why; int k;
        while ((k = cut(buf, &f, &why)) == 1) {
            got++; seen_requests++;
            if (f.m.type() != RpcMeta::REQUEST) trouble("request-type", "request meta type " + S(f.m.type()));
            { std::lock_guard<std::mutex> _(mu); if (seqs[f.m.sequence_id()]++) fail("sequence-id-reused", "two requests of one client carry sequence id " + S(f.m.sequence_id())); }
            vfe::Req q1; string raw; unpack(f.data, f.m.compress_type() == 2 || f.m.compress_type() == 1 ? 1 : 0, &raw);
            if (!q1.ParseFromString(raw)) { trouble("request-payload", "request data does not parse: " + esc(f.data)); continue; }
            int id = q1.n(); std::shared_ptr<Plan> p;
            { std::lock_guard<std::mutex> _(mu); if (R.plans.count(id)) p = R.plans[id]; }
            if (!p) { trouble("request-payload", "request payload names no call: " + esc(raw)); continue; }
            string all; q1.SerializeToString(&all);
            if (all != p->sent) trouble("request-payload", "the request on the wire is not the request given: sent " + esc(p->sent) + " wire " + esc(all));
            string mname = p->method == 1 ? "vfe.Echo.Fast" : "vfe.Echo.Call";
            if (f.m.method() != mname) trouble("request-method", "method on the wire " + f.m.method() + " wanted " + mname);
            int wantc = p->reqcomp >= 0 ? p->reqcomp : p->method == 1 ? 1 : 0, wantr = p->rspcomp >= 0 ? p->rspcomp : p->method == 1 ? 2 : 0;
            if ((int)f.m.compress_type() != wantc) trouble("request-compress", "compress type on the wire " + S(f.m.compress_type()) + " wanted " + S(wantc));
            if ((int)f.m.expected_response_compress_type() != wantr) trouble("request-compress", "expected response compress type on the wire " + S(f.m.expected_response_compress_type()) + " wanted " + S(wantr));
            int64_t wt = p->timeout > 0 ? p->timeout : p->method == 1 ? 7000 : 8000;
            if (f.m.server_timeout() != wt) trouble("request-timeout", "server timeout on the wire " + S(f.m.server_timeout()) + " wanted " + S(wt));
            Pending e = {f.m.sequence_id(), p}; q.push_back(e);
        }
        if (k < 0) { trouble("request-framing", "malformed request frame: " + why); return; }
    }
    std::shuffle(q.begin(), q.end(), r);
    string out; size_t cutat = string::npos; std::vector<size_t> ends; std::set<Plan*> lost;
    size_t stop = R.ending == 1 || R.ending >= 3 ? r() % (q.size() + 1) : q.size();
    for (size_t i = 0; i < q.size(); i++) {
        Plan& p = *q[i].p; uint64_t s = q[i].seq;
        if (i >= stop) { continue; }
        if (R.junk && r() % 3 == 0) junk(out, r);
        switch (p.act) {
        case OK: out += frame(rsp_meta(s, 0, false, 0, false, "", p.comp), rsp_data(p)); break;
        case DUP: { string x = frame(rsp_meta(s, 0, false, 0, false, "", p.comp), rsp_data(p)); out += x + x; break; }
        case TWICE_DIFF: { Plan o; o.reply = "not the first answer"; o.comp = 0; out += frame(rsp_meta(s, 0, false, 0, false, "", p.comp), rsp_data(p)) + frame(rsp_meta(s, 0, false, 0, false, "", 0), rsp_data(o)); break; }
        case FAILED: out += frame(rsp_meta(s, 1, true, p.code, true, p.reason, 0), p.code % 2 ? "" : "ignored"); break;
        case FAILZERO: out += frame(rsp_meta(s, 1, true, 0, true, "r", 0), ""); break;
        case NOFAILED: out += frame(rsp_meta(s, -1, false, 0, false, "", 0), rsp_data(p)); break;
        case NOCODE: out += frame(rsp_meta(s, 1, false, 0, true, "r", 0), ""); break;
        case NOREASON: out += frame(rsp_meta(s, 1, true, 7, false, "", 0), ""); break;
        case BADDATA: out += frame(rsp_meta(s, 0, false, 0, false, "", 0), string("\x0a\x7f zz", 5)); break;
        case EMPTYDATA: out += frame(rsp_meta(s, 0, false, 0, false, "", 0), ""); break;
        case TYPEREQ: { Plan o; o.reply = "a request is no answer"; o.comp = 0; out += frame(rsp_meta(s, 0, false, 0, false, "", 0, 0), rsp_data(o)) + frame(rsp_meta(s, 0, false, 0, false, "", p.comp), rsp_data(p)); break; }
        case SILENT: break;
        }
    }
    if (R.ending >= 3) {       // a malformed header ends the conversation
        switch (R.ending) {
        case 3: out += "SOFB" + le(0, 4) + le(0, 8) + le(0, 8); break;
        case 4: out += header(10, 10, 21) + string(21, 'x'); break;
        case 5: out += header(-1, 1, 0); break;
        case 6: out += header(8, -4, 4) + "abcd"; break;
        case 7: out += header(0, -8, -8); break;
        case 8: out += header(-5, 5, 0) + string(64, 'y'); break;
        case 9: out += header(5, -10, -5); break;
        case 10: out += header(5, INT64_MAX - 3, INT64_MIN + 1) + string(100, 'z'); break;
        }
        out += frame(rsp_meta(3000000, 0, false, 0, false, "", 0), "after the malformed header");
        // answers behind a malformed header must not be believed
        for (size_t i = stop; i < q.size(); i++) { Plan o; o.reply = "behind a malformed header"; o.comp = 0; out += frame(rsp_meta(q[i].seq, 0, false, 0, false, "", 0), rsp_data(o)); }
    }
    if (R.ending == 1) for (size_t i = stop; i < q.size(); i++) {       // the rest: a truncated answer, then close
        string x = frame(rsp_meta(q[i].seq, 0, false, 0, false, "", q[i].p->comp), rsp_data(*q[i].p)); out += x.substr(0, r() % x.size()); break; }
    { std::lock_guard<std::mutex> _(mu); for (size_t i = stop; i < q.size(); i++) q[i].p->act = -1 - q[i].p->act; }
    wr_chunks(fd, out, r, R.style);
    if (R.ending == 1) { nap(2000); close(fd); return; }
    if (R.ending == 2) { for (int i = 0; i < 50 && R.keepopen; i++) { string s; if (rd(fd, s, 100) < 0) break; } close(fd); return; }
    // malformed: the client must close
    string s; int64_t t = now_ms();
    while (now_ms() - t < 8000) { if (rd(fd, s, 5) < 0) { close(fd); return; } if (R.ending == 0 && !R.keepopen) break; }
    if (R.ending >= 3) trouble("malformed-not-closed", "the connection stays open after malformed header case " + S(R.ending));
    close(fd);
}
struct Call { std::shared_ptr<Plan> p; RpcController* c; vfe::Req* q; vfe::Rsp* s; };
static void finished(Call* k) {
    Plan& p = *k->p; p.t1 = now_ms(); p.failed = k->c->Failed(); p.err = k->c->ErrorCode(); p.etext = k->c->ErrorText();
    if (!p.failed) { p.got = k->s->text(); p.gotblob = k->s->blob(); }
    ++p.done;
}
static bool serial = false;     // one work thread: messages of successive reads are handled in order
static RpcClient* client = NULL; static int client_age = 0;
static void one(uint64_t seed) {
    std::mt19937_64 r(seed); Case(part + " seed " + S(seed));
    auto rd_ = std::make_shared<Round>(); rd_->r.seed(seed * 77 + 1); rd_->style = r() % 5; rd_->junk = part == "outgoing" ? 0 : r() % 2;
    rd_->ending = 0; rd_->keepopen = 1;
    bool framing = part == "framing", match = part == "match", finish = part == "finish";
    if (framing) rd_->ending = r() % 3 == 0 ? 3 + r() % 8 : r() % 4 == 0 ? 1 : 0;
    if (finish) rd_->ending = r() % 3 == 0 ? 1 : r() % 6 == 0 ? 3 : 0;
    int n = 1 + r() % (finish ? 6 : 12);
    bool silent = false;
    for (int i = 0; i < n; i++) {
        auto p = std::make_shared<Plan>(); p->done = 0; p->code = 1 + r() % 1100; p->reason = r() % 4 ? "because " + S(r() % 1000) : ""; p->comp = r() % 4 == 0 ? 1 + r() % 2 : 0;
        p->reply = "answer " + S(i) + " " + string(r() % 3 ? r() % 50 : r() % 5000, 'a' + i); p->blob = r() % 4 ? "" : string(r() % (framing ? 20000 : 3000), (char)r());
        p->sync = r() % 4 == 0; p->timeout = r() % 2 ? 5000 + r() % 1000 : -1; p->method = r() % 3 == 0; p->act = OK; p->reqcomp = p->rspcomp = -1; p->err = -1; p->failed = false;
        if (r() % 4 == 0) p->reqcomp = r() % 3; if (r() % 4 == 0) p->rspcomp = r() % 3;
        if (match || finish) { static const int A[] = {OK, FAILED, NOFAILED, NOCODE, NOREASON, DUP, TWICE_DIFF, BADDATA, TYPEREQ, EMPTYDATA, FAILZERO}; p->act = A[r() % 11]; }
        if (finish && r() % 4 == 0 && !rd_->ending) { p->act = SILENT; p->timeout = 100 + r() % 400; silent = true; p->sync = r() % 2; }
        rd_->plans[i] = p;
    }
    rd_->expect = n;
    if (!silent) rd_->keepopen = rd_->ending ? 1 : 1;
    int port; int ls = listen_any(&port, part == "outgoing" && r() % 2 ? 4096 : 0);
    std::thread srv([&, rd_] {
        pollfd pf = {ls, POLLIN, 0}; if (poll(&pf, 1, 8000) <= 0) return;
        int fd = accept(ls, 0, 0); wire_conns++; int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); serve(fd, rd_);
    });
    std::vector<Call*> calls;
    {
        if (!client || ++client_age % 25 == 0) { delete client; seqs.clear(); RpcClientOptions o; o.work_thread_num = r() % 2 ? 1 : 2 + r() % 2; serial = o.work_thread_num == 1; o.callback_thread_num = 1 + r() % 2; client = new RpcClient(o); }
        std::unique_ptr<RpcChannel> ch(new RpcChannel(client, "127.0.0.1:" + S(port)));
        std::vector<std::thread> th; int nth = 1 + r() % 4; vfe::Echo_Stub stub(ch.get());
        for (int i = 0; i < n; i++) {
            auto p = rd_->plans[i]; Call* k = new Call; k->p = p; k->c = new RpcController; k->q = new vfe::Req; k->s = new vfe::Rsp; calls.push_back(k);
            k->q->set_text("req " + S(i)); k->q->set_n(i); if (r() % 2) k->q->set_blob(rbytes(part == "outgoing" ? (r() % 4 ? r() % 300 : r() % 300000) : r() % 400)); for (int j = r() % 4; j > 0; j--) k->q->add_list(r());
            k->q->SerializeToString(&p->sent);
            if (p->timeout > 0) k->c->SetTimeout(p->timeout); if (p->reqcomp >= 0) k->c->SetRequestCompressType((CompressType)p->reqcomp); if (p->rspcomp >= 0) k->c->SetResponseCompressType((CompressType)p->rspcomp);
        }
        for (int t = 0; t < nth; t++) th.emplace_back([&, t] {
            // asynchronous calls first: a synchronous one blocks its thread
            for (int pass = 0; pass < 2; pass++) for (int i = t; i < n; i += nth) {
                Call* k = calls[i]; if (k->p->sync != (pass == 1)) continue; k->p->t0 = now_ms();
                google::protobuf::Closure* d = k->p->sync ? NULL : sofa::pbrpc::NewClosure(&finished, k);
                auto go = [=, &stub](google::protobuf::Closure* dd) { k->p->method == 1 ? stub.Fast(k->c, k->q, k->s, dd) : stub.Call(k->c, k->q, k->s, dd); };
                if (k->p->sync) { std::thread([=] { go(NULL); finished(k); }).detach(); } else go(d);
            }
        });
        for (auto& t : th) t.join();
        int64_t lim = now_ms() + 14000; bool all = false;
        while (!all && now_ms() < lim) { all = true; for (auto k : calls) if (!k->p->done) all = false; if (!all) nap(1000); }
        if (!all) { string w; for (int i = 0; i < n; i++) if (!calls[i]->p->done) w += " " + S(i) + "(act " + S(calls[i]->p->act) + (calls[i]->p->sync ? ",sync)" : ")"); fail("never-done", "calls not completed 14 s after the conversation:" + w); fflush(stdout); done(); _exit(1); }
        nap(part == "match" ? 2000 : 300);
        for (int i = 0; i < n; i++) if (calls[i]->p->done != 1) fail("done-twice", "call " + S(i) + " completed " + S((int)calls[i]->p->done) + " times");
        rd_->keepopen = 0;
        ch.reset();
    }
    srv.join(); close(ls);
    for (int i = 0; i < n; i++) {
        Plan& p = *calls[i]->p; string id = "call " + S(i) + " act " + S(p.act) + ": ";
        string res = p.failed ? "failed " + S(p.err) + " " + p.etext : "ok " + esc(p.got.substr(0, 60));
        int act = p.act;
        if (p.done != 1) fail("done-twice", id + "completed " + S((int)p.done) + " times");
        auto want_err = [&](int code, const char* key) { if (!p.failed || p.err != code) fail(key, id + "wanted error " + S(code) + " got " + res); };
        if (act < 0) { want_err(RPC_ERROR_CONNECTION_CLOSED, "closed-outcome"); continue; }
        // with several work threads, or a malformed header in the same read, the closing of the connection may overtake an answer
        if ((!serial || rd_->ending >= 3) && rd_->ending && p.failed && p.err == RPC_ERROR_CONNECTION_CLOSED) continue;
        if (!serial && act == TWICE_DIFF && !p.failed && p.got == "not the first answer") continue;
        switch (act) {
        case OK: case DUP: case TWICE_DIFF: case TYPEREQ:
            if (p.failed || p.got != p.reply || p.gotblob != p.blob) fail("wrong-answer", id + "wanted ok " + esc(p.reply.substr(0, 60)) + " got " + res + (p.gotblob != p.blob ? " (blob differs)" : "")); break;
        case FAILED: want_err(p.code, "wrong-error"); if (p.failed && p.code != RPC_ERROR_REQUEST_TIMEOUT && p.reason.size() && p.etext.find(p.reason) == string::npos) fail("wrong-reason", id + "wanted reason " + p.reason + " got " + p.etext); break;
        case NOFAILED: case NOCODE: case NOREASON: case BADDATA: want_err(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "bad-response-accepted"); break;
        case FAILZERO: if (!p.failed) fail("failed-as-success", id + "a response marked failed completes the call as " + res); break;
        case EMPTYDATA: want_err(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "bad-response-accepted"); break;
        case SILENT: want_err(RPC_ERROR_REQUEST_TIMEOUT, "no-timeout");
            if (p.t1 - p.t0 < p.timeout - 2) fail("timeout-early", id + "timed out after " + S(p.t1 - p.t0) + " ms, asked for " + S(p.timeout));
            if (p.t1 - p.t0 > p.timeout + 6000) fail("timeout-late", id + "timed out after " + S(p.t1 - p.t0) + " ms, asked for " + S(p.timeout)); break;
        }
    }
    for (auto k : calls) { delete k->c; delete k->q; delete k->s; delete k; }
}
int main(int c, char** v) {
    init(); part = v[1]; double secs = atof(v[2]); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); signal(SIGPIPE, SIG_IGN);
    uint64_t base = rng(); int64_t t0 = now_ms(); long i = 0;
    if (c > 3) { one(strtoull(v[3], 0, 10)); return done(); }
    while (now_ms() - t0 < secs * 1000 && g_failkeys.size() < 3) one(base + i++);
    int rc = done(); _exit(rc);
}
