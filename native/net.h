// raw loopback peers speaking the wire format, written from the format's description only
#ifndef VF_NET_H
#define VF_NET_H
#include "vh.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <errno.h>
#include <time.h>
#include <thread>
#include <mutex>
#include <atomic>
#include <chrono>
#include <functional>
#include <condition_variable>
#include <sofa/pbrpc/rpc_meta.pb.h>
#include <google/protobuf/io/gzip_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/message.h>
namespace net {
using std::string;
inline int64_t now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000LL + t.tv_nsec / 1000000; }
inline void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
inline int listen_any(int* port, int rcvbuf = 0) {
    int s = socket(AF_INET, SOCK_STREAM, 0); int one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (rcvbuf) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(s, (sockaddr*)&a, sizeof a) || listen(s, 64)) { perror("listen"); exit(3); }
    socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); *port = ntohs(a.sin_port); return s;
}
inline int dial(int port, int rcvbuf = 0) {
    int s = socket(AF_INET, SOCK_STREAM, 0); int one = 1;
    if (rcvbuf) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
    if (connect(s, (sockaddr*)&a, sizeof a)) { close(s); return -1; }
    return s;
}
// read what is there; -1 closed, 0 timeout
inline int rd(int fd, string& buf, int ms, size_t lim = 65536) {
    pollfd p = {fd, POLLIN, 0}; int r = poll(&p, 1, ms); if (r <= 0) return 0;
    char b[65536]; ssize_t n = recv(fd, b, std::min(lim, sizeof b), 0);
    if (n <= 0) return -1;
    buf.append(b, n); return (int)n;
}
inline bool wr(int fd, const string& s) {
    size_t o = 0; while (o < s.size()) { ssize_t n = send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (n <= 0) return false; o += n; } return true;
}
// write in pieces cut at random places
inline bool wr_chunks(int fd, const string& s, std::mt19937_64& r, int style) {
    size_t o = 0;
    while (o < s.size()) {
        size_t n;
        switch (style) { case 0: n = s.size(); break; case 1: n = 1 + r() % 7; break; case 2: n = 1 + r() % 60; break; case 3: n = 1 + r() % 3000; break; default: n = r() % 3 ? 1 + r() % 30 : 1 + r() % 5000; }
        if (style == 1 && o > 200) n = 1 + r() % 2000;
        n = std::min(n, s.size() - o);
        if (!wr(fd, s.substr(o, n))) return false;
        o += n;
        if (style != 0 && r() % 2) nap(r() % 200);
    }
    return true;
}
inline string le(uint64_t v, int n) { string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
inline uint64_t un(const string& s, size_t o, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | (unsigned char)s[o + i]; return v; }
inline string header(int32_t meta, int64_t data, int64_t msg) { return "SOFA" + le((uint32_t)meta, 4) + le(data, 8) + le(msg, 8); }
inline string frame(const string& meta, const string& data) { return header(meta.size(), data.size(), meta.size() + data.size()) + meta + data; }
inline string pack(const string& d, int type) {      // compress types 0 none, 1 gzip, 2 zlib
    if (type == 0) return d;
    string out; { google::protobuf::io::StringOutputStream so(&out); google::protobuf::io::GzipOutputStream::Options o; o.format = type == 1 ? google::protobuf::io::GzipOutputStream::GZIP : google::protobuf::io::GzipOutputStream::ZLIB;
        google::protobuf::io::GzipOutputStream g(&so, o); void* p; int n; size_t k = 0; while (k < d.size() && g.Next(&p, &n)) { int m = std::min<size_t>(n, d.size() - k); memcpy(p, d.data() + k, m); k += m; if (m < n) g.BackUp(n - m); } g.Close(); }
    return out;
}
inline bool unpack(const string& d, int type, string* out) {
    if (type == 0) { *out = d; return true; }
    google::protobuf::io::ArrayInputStream ai(d.data(), d.size());
    google::protobuf::io::GzipInputStream g(&ai, google::protobuf::io::GzipInputStream::AUTO); const void* p; int n; while (g.Next(&p, &n)) out->append((const char*)p, n);
    return true;
}
struct Frame { string meta, data; sofa::pbrpc::RpcMeta m; };
// cut the first well-formed frame off the buffer: 1 ok, 0 incomplete, -1 malformed
inline int cut(string& buf, Frame* f, string* why) {
    if (buf.size() < 24) return 0;
    if (buf.compare(0, 4, "SOFA")) { *why = "bad magic " + vh::esc(buf.substr(0, 24)); return -1; }
    int32_t ms = (int32_t)un(buf, 4, 4); int64_t ds = (int64_t)un(buf, 8, 8), ts = (int64_t)un(buf, 16, 8);
    if (ms < 0 || ds < 0 || ts != ms + ds) { *why = "bad sizes meta " + vh::S(ms) + " data " + vh::S(ds) + " message " + vh::S(ts); return -1; }
    if ((int64_t)buf.size() < 24 + ts) return 0;
    f->meta = buf.substr(24, ms); f->data = buf.substr(24 + ms, ds); buf.erase(0, 24 + ts);
    if (!f->m.ParseFromString(f->meta)) { *why = "meta does not parse"; return -1; }
    return 1;
}
}
#endif
