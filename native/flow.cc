// Throughput limits and their change at run time, on the real client and server over the loopback interface.  argv[1]: cases
#include "net.h"
#include "vfe.pb.h"
#include <sofa/pbrpc/pbrpc.h>
using namespace vh; using namespace net; using namespace sofa::pbrpc;
typedef google::protobuf::RpcController PC; typedef google::protobuf::Closure PD;
static std::mutex mu; static void trouble(const string& k, const string& s) { std::lock_guard<std::mutex> _(mu); fail(k.c_str(), s); }
struct EchoImpl : vfe::Echo {
    void Call(PC*, const vfe::Req* q, vfe::Rsp* r, PD* d) { r->set_text(q->text()); if (q->has_blob()) r->set_blob(q->blob()); r->set_n(q->n()); d->Run(); }
    void Later(PC*, const vfe::Req* q, vfe::Rsp* r, PD* d) { r->set_text(q->text()); r->set_n(q->n()); int ms = q->n(); std::thread([=] { nap(ms * 1000); d->Run(); }).detach(); }
};
static RpcServer* serve(int* port, RpcServerOptions o) { for (int k = 0; k < 20; k++) { int s = listen_any(port); close(s); RpcServer* r = new RpcServer(o); r->RegisterService(new EchoImpl); if (r->Start("127.0.0.1:" + S(*port))) return r; delete r; } exit(3); }
struct One { sofa::pbrpc::RpcController c; vfe::Req q; vfe::Rsp r; std::atomic<int>* n; };
static void fin(One* o) { ++*o->n; }
// which: 0 server in, 1 server out, 2 client in, 3 client out; change: 0 none, 1 lift while waiting, 2 set while running, 3 huge limit, 4 reset while stopped
static void flow_case(int which, int change, int kb) {
    std::ostringstream d; d << "flow " << (which < 2 ? "server" : "client") << (which & 1 ? " out" : " in") << " change " << change << " " << kb << " KB"; { std::lock_guard<std::mutex> _(mu); Case(d.str()); }
    string id = d.str(); RpcServerOptions so; RpcClientOptions co; so.work_thread_num = co.work_thread_num = 2;
    int64_t lim = change == 3 ? 1 << (15 + kb % 16) : 1; auto set = [&](int64_t v) { (which == 0 ? so.max_throughput_in : which == 1 ? so.max_throughput_out : which == 2 ? co.max_throughput_in : co.max_throughput_out) = v; };
    if (change != 2) set(lim);
    int port; RpcServer* s = serve(&port, so); RpcClient* c = new RpcClient(co);
    if (change == 4) { s->Stop(); set(-1); s->ResetOptions(so); set(1); s->ResetOptions(so); if (!s->Start("127.0.0.1:" + S(port))) { delete c; delete s; return; } }
    {
        RpcChannel ch(c, "127.0.0.1", port); vfe::Echo_Stub st(&ch); std::atomic<int>& n = *new std::atomic<int>(0); int N = 12; std::vector<One*> v; string blob(kb * 1024 / N, 'x');
        auto put = [&](int k) { for (int i = 0; i < k; i++) { One* o = new One; o->n = &n; o->c.SetTimeout(30000); o->q.set_text("t"); o->q.set_n(v.size()); o->q.set_blob(blob); v.push_back(o); st.Call(&o->c, &o->q, &o->r, NewClosure(&fin, o)); } };
        int64_t t0 = now_ms(), dead = 20000; put(2);
        if (change == 2) { while (n < 2 && now_ms() - t0 < 5000) nap(1000); set(1); which < 2 ? s->ResetOptions(so) : c->ResetOptions(co); nap(250000); t0 = now_ms(); }
        put(N - 2);
        if (change == 1) { nap(300000); set(-1); which < 2 ? s->ResetOptions(so) : c->ResetOptions(co); t0 = now_ms(); dead = 4000; }
        if (change == 3) dead = 4000;
        while (n < N && now_ms() - t0 < dead) nap(1000);
        int64_t took = now_ms() - t0; int64_t bytes = (int64_t)(change == 2 ? N - 2 : N) * blob.size();
        if (n < N) trouble(change == 0 ? "limit-strands" : change == 1 ? "lifted-limit-strands" : change == 3 ? "huge-limit-strands" : "limit-strands", S(N - n) + " of " + S(N) + " calls do not finish in " + S(dead) + " ms, " + id);
        // a megabyte a second, and at most one slice and one message (or block) per direction beyond it
        if ((change == 0 || change == 2) && n == N && took < (bytes - 2 * (int64_t)blob.size() - 300000) / 1100) trouble("limit-exceeded", S(bytes) + " bytes in " + S(took) + " ms under a limit of 1 MB/s, " + id);
        for (int i = 0; i < N; i++) if (n == N && (v[i]->c.Failed() || v[i]->r.blob() != blob || v[i]->r.n() != i)) trouble("limit-corrupts", "call " + S(i) + " failed or answered wrongly: " + v[i]->c.ErrorText() + ", " + id);
    }
    delete c; delete s;
}
// idle connections: side 0 of the server, 1 of the client; ms: how long the method takes (0: at once); keep: the keep-alive time in seconds
static void idle_case(int side, int ms, int keep) {
    string id = S("idle connection of the ") + (side ? "client" : "server") + ", a call of " + S(ms) + " ms, keep-alive " + S(keep) + " s"; { std::lock_guard<std::mutex> _(mu); Case(id); }
    int port; int64_t last = 0; int fd = -1; bool ok = false; string b, why; RpcServerOptions so; RpcClientOptions co; so.work_thread_num = co.work_thread_num = 2; RpcServer* s = NULL; RpcClient* c = NULL; vfe::Req q; q.set_text("t"); q.set_n(ms); Frame f;
    if (side == 0) {
        so.keep_alive_time = keep; s = serve(&port, so); fd = dial(port); RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(5); m.set_method(ms ? "vfe.Echo.Later" : "vfe.Echo.Call"); string x, y; m.SerializeToString(&x); q.SerializeToString(&y); wr(fd, frame(x, y));
        int64_t t0 = now_ms(); while (!ok && now_ms() - t0 < ms + 8000) { if (rd(fd, b, 20) < 0) break; ok = cut(b, &f, &why) == 1; } last = now_ms();
    } else {
        co.keep_alive_time = keep; int ls = listen_any(&port); c = new RpcClient(co); RpcChannel ch(c, "127.0.0.1", port); vfe::Echo_Stub st(&ch); sofa::pbrpc::RpcController k; k.SetTimeout(ms + 8000); vfe::Rsp r;
        std::thread peer([&] { fd = accept(ls, 0, 0); int64_t t0 = now_ms(); while (now_ms() - t0 < 5000) { if (rd(fd, b, 20) < 0) return; if (cut(b, &f, &why) == 1) break; } nap(ms * 1000);
            RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(f.m.sequence_id()); m.set_failed(false); vfe::Rsp p; p.set_text("t"); string x, y; m.SerializeToString(&x); p.SerializeToString(&y); wr(fd, frame(x, y)); });
        st.Call(&k, &q, &r, NULL); ok = !k.Failed() && r.text() == "t"; last = now_ms(); peer.join(); close(ls);
    }
    if (!ok) trouble("idle-busy", "the call did not finish, " + id);
    else { bool gone = false; while (!gone && now_ms() - last < keep * 1000 + 6000) gone = rd(fd, b, 20) < 0; int64_t d = now_ms() - last;
        if (!gone) trouble("idle-kept", "still open after " + S(d) + " ms, " + id); else if (d < keep * 1000 - 700) trouble("idle-early", "closed after " + S(d) + " ms, " + id); }
    close(fd); delete c; delete s;
}
int main(int, char** a) {
    init(); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); int n = atoi(a[1]);
    for (int i = 0; i < n; i++) { std::vector<std::thread> t; for (int w = 0; w < 4; w++) for (int ch = 0; ch < 5; ch++) { if (ch == 4 && w > 1) continue; int kb = 1500 + rnd(i ? 3000 : 1000); t.emplace_back([=] { flow_case(w, ch, kb); }); } for (int w = 0; w < 2; w++) for (int ms : {0, 700, 2600}) for (int k = 1; k < 3; k++) t.emplace_back([=] { idle_case(w, ms, k); }); for (auto& x : t) x.join(); }
    return done();
}
