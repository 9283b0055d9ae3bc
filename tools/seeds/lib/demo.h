// shared by the demonstrations: an echo server and a client on the loopback interface, and raw peers (net.h)
#include "net.h"
#include "vfe.pb.h"
#include <sofa/pbrpc/pbrpc.h>
using namespace vh; using namespace net; using namespace sofa::pbrpc;
typedef google::protobuf::RpcController PC; typedef google::protobuf::Closure PD;
static std::mutex mu; static std::map<int, int> calls;
struct EchoImpl : vfe::Echo {
    void put(const vfe::Req* q, vfe::Rsp* r) { { std::lock_guard<std::mutex> _(mu); calls[q->n()]++; } r->set_text(q->text()); if (q->has_blob()) r->set_blob(q->blob()); r->set_n(q->n()); for (int i = 0; i < q->list_size(); i++) r->add_list(q->list(i)); }
    void Call(PC*, const vfe::Req* q, vfe::Rsp* r, PD* d) { put(q, r); d->Run(); }
    void Fast(PC*, const vfe::Req* q, vfe::Rsp* r, PD* d) { put(q, r); d->Run(); }
    void Fail(PC* c, const vfe::Req* q, vfe::Rsp* r, PD* d) { put(q, r); c->SetFailed("no: " + q->text()); d->Run(); }
    void Later(PC*, const vfe::Req* q, vfe::Rsp* r, PD* d) { put(q, r); int ms = q->n(); std::thread([=] { nap(ms * 1000); d->Run(); }).detach(); }
};
static int free_port() { int p; int s = listen_any(&p); close(s); return p; }
static RpcServer* serve(int* port, RpcServerOptions o = RpcServerOptions()) {
    for (int k = 0; k < 50; k++) { *port = free_port(); RpcServer* s = new RpcServer(o); s->RegisterService(new EchoImpl); if (s->Start("127.0.0.1:" + S(*port))) return s; delete s; }
    puts("cannot start a server"); exit(97);
}
static string ask(const string& method, uint64_t seq, const string& text, int n, const string& blob = "") { RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(seq); m.set_method(method); vfe::Req q; q.set_text(text); q.set_n(n); if (!blob.empty()) q.set_blob(blob); string a, b; m.SerializeToString(&a); q.SerializeToString(&b); return frame(a, b); }
static string answer(uint64_t seq, const string& text, const string& blob = "") { RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(seq); m.set_failed(false); vfe::Rsp r; r.set_text(text); if (!blob.empty()) r.set_blob(blob); string a, b; m.SerializeToString(&a); r.SerializeToString(&b); return frame(a, b); }
// next frame of a connection, false after ms milliseconds or when it closes
static bool next(int fd, string& buf, Frame* f, int ms) { string why; int64_t t0 = now_ms(); for (;;) { int k = cut(buf, f, &why); if (k == 1) return true; if (k < 0) return false; if (now_ms() - t0 > ms) return false; if (rd(fd, buf, 20) < 0) return false; } }
static vfe::Req req_of(const Frame& f) { vfe::Req q; q.ParseFromString(f.data); return q; }
static int verdict(bool ok, const string& what) { printf("%s: %s\n", ok ? "ok" : "WRONG", what.c_str()); fflush(stdout); _exit(ok ? 0 : 1); }
