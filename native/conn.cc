// The states of a real connection (RpcByteStream over real sockets), with closing injected at every point.  argv[1]: rounds
#include "vh.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <thread>
#include <atomic>
#include <chrono>
#include <boost/asio.hpp>
#include <sofa/pbrpc/common_internal.h>
#include <sofa/pbrpc/rpc_byte_stream.h>
using namespace vh; using namespace sofa::pbrpc; using std::string;
static int64_t now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000LL + t.tv_nsec / 1000000; }
struct Peer {
    int fd, port; std::vector<int> held;
    Peer(int backlog) { fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (bind(fd, (sockaddr*)&a, sizeof a) || listen(fd, backlog)) { perror("listen"); exit(3); } socklen_t l = sizeof a; getsockname(fd, (sockaddr*)&a, &l); port = ntohs(a.sin_port); }
    void fill() { for (int i = 0; i < 8; i++) { int s = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port); if (connect(s, (sockaddr*)&a, sizeof a)) {} held.push_back(s); } std::this_thread::sleep_for(std::chrono::milliseconds(30)); }
    ~Peer() { for (int s : held) close(s); close(fd); }
};
enum At { NOWHERE, BEFORE_CONNECT, AFTER_CONNECT, IN_UP, AFTER_UP, IN_UP_FAILS, ATS };
static const char* names[] = {"never", "before connecting", "while connecting", "as it opens", "when open", "never, but the set-up fails"};
struct TS : RpcByteStream {
    std::atomic<int> closed, up, recv, send; std::atomic<long> bytes; At at; bool early;   // early: traffic before it was open
    std::atomic<bool> revived;
    TS(IOService& s, const RpcEndpoint& e) : RpcByteStream(s, e), closed(0), up(0), recv(0), send(0), bytes(-1), at(NOWHERE), early(false), revived(false) {}
    virtual bool on_connected() { up++; if (recv || send) early = true; if (at == IN_UP) close("injected"); return at != IN_UP_FAILS; }
    virtual void on_closed() { closed++; if (!is_closed()) early = true; }
    virtual bool trigger_receive() { recv++; if (!up) early = true; if (closed) revived = true; return true; }
    virtual bool trigger_send() { send++; if (!up) early = true; if (closed) revived = true; return true; }
    virtual void on_read_some(const boost::system::error_code& e, size_t n) { bytes = e ? -2 : (long)n; }
    virtual void on_write_some(const boost::system::error_code& e, size_t n) { bytes = e ? -2 : (long)n; }
    void read(char* p, size_t n) { async_read_some(p, n); } void write(const char* p, size_t n) { async_write_some(p, n); }
    int state() { return is_closed() ? 3 : is_connected() ? 2 : is_connecting() ? 1 : 0; }
};
typedef sofa::pbrpc::shared_ptr<TS> TSP;
static void run(IOService& io, int ms, std::function<bool()> until) { int64_t t0 = now_ms(); while (now_ms() - t0 < ms && !until()) { io.poll(); io.reset(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); } }
static void verdict(TS& t, bool must_close, int opened) {
    if (must_close && t.state() != 3) fail("not-closed", "the connection is not closed");
    if (!must_close && t.state() != 2) fail("not-open", "the connection is not open");
    if (t.closed != (must_close ? 1 : 0)) fail("told", "closing reported " + S(t.closed) + " times");
    if (t.recv != opened || t.send != opened) fail("traffic", "traffic started " + S(t.recv) + "/" + S(t.send) + " times");
    if (t.early) fail("early", "traffic or report at the wrong time"); if (t.revived) fail("revived", "traffic started on a closed connection");
    t.close("again"); if (t.closed != 1) fail("told", "closing again: reported " + S(t.closed) + " times"); if (t.state() != 3) fail("not-closed", "not closed by close()");
}
static RpcEndpoint ep(int port) { return RpcEndpoint(boost::asio::ip::address::from_string("127.0.0.1"), port); }
static void client(At at, int timeout, int kind) {   // kind 0 accepting, 1 refusing, 2 silent
    Case(S("connect to ") + (kind == 0 ? "an open" : kind == 1 ? "a closed" : "a silent") + " port, timeout " + S(timeout) + ", closed " + names[at]);
    IOService io; Peer p(kind == 2 ? 0 : 16); int port = p.port; if (kind == 2) p.fill(); if (kind == 1) { close(p.fd); p.fd = -1; }
    TSP t(new TS(io, ep(port))); t->at = at; t->set_connect_timeout(timeout); t->reset_ticks(7, false);
    if (t->state() != 0) fail("state", "a new one is in state " + S(t->state()));
    if (at == BEFORE_CONNECT) t->close("injected");
    int64_t t0 = now_ms(); t->async_connect();
    if (at != BEFORE_CONNECT && t->state() != 1) fail("state", "connecting is state " + S(t->state()));
    if (at == AFTER_CONNECT) t->close("injected");
    if (t->last_rw_ticks() != 7) fail("ticks", "last traffic at " + S(t->last_rw_ticks()));
    run(io, kind == 2 ? timeout + 400 : 2000, [&] { return t->closed > 0 || t->recv > 0; });
    if (kind == 2 && at == NOWHERE) { int64_t d = now_ms() - t0; if (t->closed && d < timeout - 2) fail("timeout-early", "timed out after " + S(d) + " ms"); }
    run(io, 5 + timeout / 4, [] { return false; });
    bool opens = kind == 0 && (at == NOWHERE || at == AFTER_UP);
    if (at == AFTER_UP && kind == 0) { if (t->state() != 2) fail("not-open", "not open"); t->close("injected"); run(io, 5, [] { return false; }); }
    if (opens && at == NOWHERE) {
        run(io, timeout > 0 ? timeout + 60 : 5, [] { return false; });        // the connect timeout must not hit an open connection
        int s = accept(p.fd, 0, 0); if (t->remote_endpoint() != ep(port)) fail("endpoint", "wrong remote endpoint");
        sockaddr_in a; socklen_t l = sizeof a; getpeername(s, (sockaddr*)&a, &l); if (t->local_endpoint().port() != ntohs(a.sin_port)) fail("endpoint", "wrong local endpoint");
        string x = rbytes(1 + rnd(3000)); string y(x.size(), 0);
        for (size_t o = 0; o < x.size();) { t->bytes = -1; t->write(x.data() + o, x.size() - o); run(io, 2000, [&] { return t->bytes != -1; }); if (t->bytes <= 0) { fail("write", "write failed"); break; } o += t->bytes; }
        for (size_t o = 0; o < y.size();) { ssize_t n = ::recv(s, &y[o], y.size() - o, 0); if (n <= 0) { fail("write", "bytes lost"); break; } o += n; }
        if (x != y) fail("write", "other bytes arrive"); ::send(s, x.data(), x.size(), 0); string z(x.size() + 16, 'z');
        size_t o = 0; while (o < x.size()) { t->bytes = -1; size_t want = 1 + rnd(x.size() - o); t->read(&z[o], want); run(io, 2000, [&] { return t->bytes != -1; }); if (t->bytes <= 0 || (size_t)t->bytes > want) { fail("read", "read gives " + S(t->bytes)); break; } o += t->bytes; }
        if (z.substr(0, x.size()) != x || z.substr(x.size()) != string(16, 'z')) fail("read", "other bytes are read");
        close(s);
    }
    verdict(*t, !(opens && at == NOWHERE), opens ? 1 : 0);
    run(io, 5, [] { return false; });
}
static void server(At at) {
    Case(S("an accepted connection, closed ") + names[at]); IOService io; Peer p(16); int c = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(p.port); if (connect(c, (sockaddr*)&a, sizeof a)) perror("connect");
    int s = accept(p.fd, 0, 0); TSP t(new TS(io, RpcEndpoint())); t->at = at; t->socket().assign(boost::asio::ip::tcp::v4(), s);
    t->update_remote_endpoint(); socklen_t l = sizeof a; getsockname(c, (sockaddr*)&a, &l);
    if (t->remote_endpoint().port() != ntohs(a.sin_port)) fail("endpoint", "wrong remote endpoint");
    if (at == BEFORE_CONNECT) t->close("injected");
    t->set_socket_connected(); if (at == AFTER_CONNECT || at == AFTER_UP) { if (t->state() != 2) fail("not-open", "not open"); t->close("injected"); }
    run(io, 5, [] { return false; }); verdict(*t, at != NOWHERE, at == NOWHERE || at == AFTER_CONNECT || at == AFTER_UP);
    // a socket that is not connected
    Case("an accepted connection that is gone"); TSP u(new TS(io, RpcEndpoint())); boost::system::error_code ec; u->socket().open(boost::asio::ip::tcp::v4(), ec); u->update_remote_endpoint();
    if (u->state() != 3 || u->closed != 1) fail("not-closed", "without a peer the connection is not closed"); close(c);
}
// many threads close at once, while the connection opens
static void race(int threads) {
    Case(S(threads) + " threads close a connection while it opens"); IOService io; Peer p(16); TSP t(new TS(io, ep(p.port))); std::atomic<bool> go(false); std::vector<std::thread> v; t->async_connect();
    for (int i = 0; i < threads; i++) v.push_back(std::thread([&, i] { while (!go) {} for (volatile int k = 0; k < i * 300; k++) {} t->close("thread " + S(i)); }));
    go = true; for (int k = 0; k < 50; k++) { io.poll(); io.reset(); } for (auto& x : v) x.join(); run(io, 10, [] { return false; });
    if (t->state() != 3) fail("revived", "open after it was closed"); if (t->closed != 1) fail("told", "closing reported " + S(t->closed) + " times");
}
// the worker is busy until both the connect completion and the connect timer are due; whichever comes first decides, once
static void busy(int kind) {
    Case(S("a busy worker handles the completion and the timeout of a connect to ") + (kind ? "a closed" : "an open") + " port together"); IOService io; Peer p(16); int port = p.port; if (kind) { close(p.fd); p.fd = -1; }
    TSP t(new TS(io, ep(port))); t->set_connect_timeout(15); t->async_connect(); std::this_thread::sleep_for(std::chrono::milliseconds(40)); run(io, 10, [] { return false; });
    verdict(*t, kind || !t->up, t->up ? 1 : 0);
}
int main(int argc, char** argv) {
    init(); int rounds = argc > 1 ? atoi(argv[1]) : 1;
    for (int r = 0; r < rounds; r++) {
        for (int at = 0; at < ATS; at++) { for (int to : {-1, 0, 60}) { client((At)at, to, 0); client((At)at, to, 1); } if (at <= AFTER_CONNECT) client((At)at, 80, 2); server((At)at); }
        for (int i = 0; i < 6; i++) busy(i % 2);
        for (int i = 0; i < 200; i++) race(1 + i % 4);
    }
    return done();
}
