// Starting and stopping the real server and client at awkward moments, on the loopback interface.  argv[1]: rounds
#include "net.h"
#include "vfe.pb.h"
#include <sofa/pbrpc/pbrpc.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <dirent.h>
using namespace vh; using namespace net;
using namespace sofa::pbrpc;
// the maintenance thread reads the clock just before each of its runs: hold it there on demand
static std::atomic<int> g_arm(0), g_held(0);
static pthread_t g_main;
extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
    if (c == CLOCK_REALTIME && g_arm.load() && !pthread_equal(pthread_self(), g_main) && g_arm.exchange(0)) { g_held = 1; usleep(150000); g_held = 2; }
    return syscall(SYS_clock_gettime, c, t);
}
static std::mutex mu; static std::map<int, int> calls;
static void trouble(const string& k, const string& s) { std::lock_guard<std::mutex> _(mu); fail(k.c_str(), s); }
struct EchoImpl : vfe::Echo {
    void Call(google::protobuf::RpcController* c, const vfe::Req* q, vfe::Rsp* r, google::protobuf::Closure* d) { { std::lock_guard<std::mutex> _(mu); calls[q->n()]++; } r->set_n(q->n()); r->set_text(q->text()); d->Run(); }
    void Later(google::protobuf::RpcController* c, const vfe::Req* q, vfe::Rsp* r, google::protobuf::Closure* d) { r->set_n(q->n()); r->set_text(q->text()); int us = q->n() * 37 % 20000; std::thread([=] { nap(us); d->Run(); }).detach(); }
};
struct Handler : RpcServer::EventHandler { std::atomic<int> n; std::atomic<int> code; Handler() : n(0), code(0) {} void NotifyAcceptFailed(RpcErrorCode c, const string&) { code = c; n++; } };
static int free_port() { int p; int s = listen_any(&p); close(s); return p; }
static int next_id = 1;
static string ask(int id) { RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(id); m.set_method("vfe.Echo.Call"); vfe::Req q; q.set_text("ping"); q.set_n(id); string a, b; m.SerializeToString(&a); q.SerializeToString(&b); return frame(a, b); }
static bool alive(int fd) { int id = next_id++; wr(fd, ask(id)); string b, why; Frame f; int64_t t0 = now_ms();
    while (now_ms() - t0 < 4000) { int n = rd(fd, b, 50); if (n < 0) return false; if (cut(b, &f, &why) == 1) return (int)f.m.sequence_id() == id && !f.m.failed(); } return false; }
static bool ends(int fd) { string b; int64_t t0 = now_ms(); while (now_ms() - t0 < 4000) if (rd(fd, b, 50) < 0) return true; return false; }
static RpcServer* start(RpcServerOptions o, int* port, RpcServer::EventHandler* h = NULL) {
    for (int k = 0; k < 20; k++) { *port = free_port(); RpcServer* s = new RpcServer(o, h); s->RegisterService(new EchoImpl); if (s->Start("127.0.0.1:" + S(*port))) return s; h = NULL; delete s; }
    fprintf(stderr, "cannot start a server\n"); exit(3);
}
static RpcServerOptions opts() { RpcServerOptions o; o.work_thread_num = 2; if (rnd(2)) o.keep_alive_time = 100; if (rnd(2)) o.max_throughput_in = 10; return o; }
static void check_stopped(RpcServer* s, int port, std::vector<int>& fds) {
    if (s->IsListening()) trouble("stop-listening", "the server is listening after Stop");
    if (s->ConnectionCount() != 0) trouble("connection-count", "count " + S(s->ConnectionCount()) + " after Stop");
    for (int fd : fds) { if (!ends(fd)) trouble("stop-open", "a connection stays open after Stop"); close(fd); }
    fds.clear(); int x = dial(port); if (x >= 0) { if (alive(x)) trouble("stop-serving", "the server serves after Stop"); close(x); }
}
// Stop() while a maintenance run is just about to begin
static void during_maintenance(bool dead_listener) {
    Case(S("Stop() while a maintenance run begins") + (dead_listener ? ", after the listener failed" : "")); Handler* h = new Handler; int port; RpcServer* s = start(opts(), &port, h); std::vector<int> fds; int n = rnd(3);
    for (int i = 0; i < n; i++) { fds.push_back(dial(port)); if (!alive(fds.back())) trouble("not-served", "a connection is not served"); }
    if (dead_listener) {
        // no more descriptors: the listener fails, the event handler hears of it
        int x = socket(AF_INET, SOCK_STREAM, 0); struct rlimit old, low; getrlimit(RLIMIT_NOFILE, &old); low = old; low.rlim_cur = x + 1;
        int fill[4096], nf = 0; while (nf < 4096 && (fill[nf] = dup(0)) >= 0 && fill[nf] < x) nf++;  // fill the holes below
        if (nf < 4096 && fill[nf] >= 0) close(fill[nf]);
        setrlimit(RLIMIT_NOFILE, &low);
        sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port); if (connect(x, (sockaddr*)&a, sizeof a)) {}
        int64_t t0 = now_ms(); while (!h->n && now_ms() - t0 < 4000) nap(1000);
        setrlimit(RLIMIT_NOFILE, &old); for (int i = 0; i < nf; i++) close(fill[i]);
        if (h->n != 1) trouble("accept-failed", "the event handler is told " + S(h->n) + " times of a failed accept");
        else if (h->code != RPC_ERROR_TOO_MANY_OPEN_FILES) trouble("accept-failed", "wrong error code " + S(h->code));
        if (s->IsListening()) trouble("accept-failed", "the listener is open after it failed");
        close(x); for (int fd : fds) if (!alive(fd)) trouble("accept-failed", "a failed accept ends other connections");
        if (rnd(2) || thorough()) {
            t0 = now_ms(); while (!s->IsListening() && now_ms() - t0 < 8000) nap(10000);
            if (!s->IsListening()) trouble("no-relisten", "the listener is not restarted");
            else { fds.push_back(dial(port)); if (fds.back() < 0 || !alive(fds.back())) trouble("no-relisten", "no service after the listener was restarted"); }
        } else { while (now_ms() - t0 < 3150) nap(10000); }
    }
    g_held = 0; g_arm = 1; int64_t t0 = now_ms(); while (!g_held && now_ms() - t0 < 3000) nap(200);
    std::atomic<int> over(0); std::thread w([&] { int64_t t1 = now_ms(); while (!over && now_ms() - t1 < 20000) nap(10000); if (!over) { printf("FAIL key=stop-hangs Stop() does not return [case: %s]\n", g_case.c_str()); fflush(stdout); _exit(1); } });
    s->Stop(); over = 1; w.join(); g_arm = 0;
    check_stopped(s, port, fds);
    if (rnd(2)) { if (!s->Start("127.0.0.1:" + S(port))) trouble("restart", "the server cannot be started again"); else { int x = dial(port); if (x < 0 || !alive(x)) trouble("restart", "the restarted server does not serve"); close(x); } }
    delete s;
}
static void busy_address() {
    int port, bp; int b = listen_any(&bp); Case("Start() at an address in use"); RpcServerOptions o = opts(); RpcServer* s = new RpcServer(o); s->RegisterService(new EchoImpl);
    if (s->Start("127.0.0.1:" + S(bp))) trouble("start-busy", "Start() at an address in use returns true");
    if (s->IsListening()) trouble("start-busy", "listening after a failed Start()");
    if (s->Start("no such host:1")) trouble("start-unresolved", "Start() at an address that does not resolve returns true");
    s->Stop();
    for (int k = 0; k < 20; k++) { port = free_port(); if (s->Start("127.0.0.1:" + S(port))) break; }
    int x = dial(port); if (x < 0 || !alive(x)) trouble("start-after-failure", "no service from a server started after a failed Start()");
    if (!s->Start("127.0.0.1:" + S(port)) || !alive(x)) trouble("start-again", "a second Start() of a running server fails or disturbs it");
    std::vector<int> f(1, x); s->Stop(); check_stopped(s, port, f); s->Stop(); delete s; close(b);
}
static void cycles() {
    Case("start and stop over and over"); int port; RpcServer* s = start(opts(), &port); std::vector<int> fds;
    for (int k = 0; k < 3; k++) {
        int n = 1 + rnd(3); for (int i = 0; i < n; i++) { fds.push_back(dial(port)); if (rnd(3) && !alive(fds.back())) trouble("not-served", "a connection is not served"); }
        nap(rnd(3) * 40000);
        s->Stop(); check_stopped(s, port, fds);
        if (!s->Start("127.0.0.1:" + S(port))) { trouble("restart", "the server cannot be started again"); break; }
    }
    delete s;
}
static void client_cycle() {
    Case("a client is shut down with calls on their way"); int port; RpcServer* s = start(opts(), &port);
    std::atomic<int> runs(0); int n = 1 + rnd(20); std::vector<RpcController*> cs; std::vector<vfe::Req> q(n); std::vector<vfe::Rsp> r(n); std::vector<std::atomic<int>> hit(n);
    struct D { static void run(std::atomic<int>* a, std::atomic<int>* b) { (*a)++; (*b)++; } };
    { RpcClientOptions co; RpcClient c(co); RpcChannel ch(&c, "127.0.0.1:" + S(port)); vfe::Echo_Stub st(&ch);
      for (int i = 0; i < n; i++) { cs.push_back(new RpcController); cs[i]->SetTimeout(3000); q[i].set_n(next_id++); q[i].set_text("x"); hit[i] = 0; st.Later(cs[i], &q[i], &r[i], sofa::pbrpc::NewClosure(&D::run, &runs, &hit[i])); }
      nap(rnd(3) ? rnd(20000) : 0); c.Shutdown(); }
    for (int i = 0; i < n; i++) { if (hit[i] != 1) trouble("client-stop", "a call on its way is completed " + S(hit[i]) + " times by Shutdown"); if (!cs[i]->Failed() && r[i].n() != q[i].n()) trouble("client-stop", "a call succeeds with a wrong answer"); delete cs[i]; }
    delete s;
}
int main(int c, char** a) {
    init(); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); int n = atoi(a[1]); g_main = pthread_self();
    for (int i = 0; i < n; i++) { during_maintenance(false); busy_address(); cycles(); client_cycle(); during_maintenance(i % 4 == 0); }
    return done();
}
