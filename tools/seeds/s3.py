import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from newseed import make, full
full('R01-prefix-cache', 'R01', [('service_pool.h', '                && _cache[cache_index]->ServiceName() == svc_name) {', '                && _cache[cache_index]->ServiceName().compare(0, svc_name.size(), svc_name) == 0) {')], '''
#include <google/protobuf/descriptor.pb.h>
#include <sofa/pbrpc/service_pool.h>
#include <sofa/pbrpc/murmurhash.h>
struct Sv : google::protobuf::Service { const google::protobuf::ServiceDescriptor* d; const google::protobuf::ServiceDescriptor* GetDescriptor() { return d; }
    void CallMethod(const google::protobuf::MethodDescriptor*, PC*, const google::protobuf::Message*, google::protobuf::Message*, PD*) {}
    const google::protobuf::Message& GetRequestPrototype(const google::protobuf::MethodDescriptor*) const { abort(); } const google::protobuf::Message& GetResponsePrototype(const google::protobuf::MethodDescriptor*) const { abort(); } };
static uint64_t slot(const string& n) { return murmurhash(n.data(), n.size()) % 1019; }
int main() {
    string name, asked; for (int i = 0; asked.empty(); i++) { name = "app.Service" + S(i); for (size_t n = 5; n < name.size(); n++) if (slot(name.substr(0, n)) == slot(name)) { asked = name.substr(0, n); break; } }
    google::protobuf::DescriptorPool dp; google::protobuf::FileDescriptorProto f; f.set_name("a.proto"); f.set_package("app"); f.add_service()->set_name(name.substr(4));
    Sv s; s.d = dp.BuildFile(f)->service(0); ServicePool p(NULL); bool in = p.RegisterService(&s, false); ServiceBoard* a = p.FindService(name); ServiceBoard* b = p.FindService(asked);
    verdict(in && a && !b, name + " registered, asked for " + asked);
}
''', 'a service whose name extends the name asked for and falls into the same slot of the look-up cache', 'a name that is not registered is found')
full('V01-busy-port-threads', 'V01', [('rpc_server_impl.cc', '''        _listener.reset();
        _io_service_pool.reset();
        _maintain_thread_group.reset();
        _flow_controller.reset();
        return false;''', '''        _listener.reset();
        return false;''')], '''
#include <dirent.h>
static int threads() { int n = 0; DIR* d = opendir("/proc/self/task"); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
int main() {
    int port; int ls = listen_any(&port); int before = threads(); RpcServerOptions o; o.work_thread_num = 3; RpcServer s(o); bool up = s.Start("127.0.0.1:" + S(port)); nap(200000); int after = threads();
    close(ls); bool again = s.Start("127.0.0.1:" + S(free_port())); s.Stop(); verdict(!up && after == before && again, S(before) + " threads, then " + S(after));
}
''', 'starting a server on an address that is taken', 'the failed start leaves its threads running')
make('N01-late-timeout', 'N01', [('rpc_byte_stream.h', '''    {
        if (_status != STATUS_CONNECTING) 
        {
            return;
        }
        if (error == boost::asio::error::operation_aborted)''', '''    {
        if (_status == STATUS_CLOSED) 
        {
            return;
        }
        if (error == boost::asio::error::operation_aborted)''')], '''#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <cstdio>
#include <string>
#include <boost/asio.hpp>
#include <sofa/pbrpc/common_internal.h>
#include <sofa/pbrpc/rpc_byte_stream.h>
using namespace sofa::pbrpc;
struct TS : RpcByteStream {
    int up, down, in; TS(IOService& s, const RpcEndpoint& e) : RpcByteStream(s, e), up(0), down(0), in(0) {}
    virtual bool on_connected() { up++; return true; } virtual void on_closed() { down++; } virtual bool trigger_receive() { in++; return true; } virtual bool trigger_send() { return true; }
    virtual void on_read_some(const boost::system::error_code&, size_t) {} virtual void on_write_some(const boost::system::error_code&, size_t) {}
};
int main() {
    int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a;
    if (bind(fd, (sockaddr*)&a, sizeof a) || listen(fd, 16) || getsockname(fd, (sockaddr*)&a, &l)) return 97;
    // the worker is busy while the connect completes and the connect timer expires; then it handles both
    for (int i = 0; i < 20; i++) { IOService io; sofa::pbrpc::shared_ptr<TS> t(new TS(io, RpcEndpoint(boost::asio::ip::address::from_string("127.0.0.1"), ntohs(a.sin_port)))); t->set_connect_timeout(20); t->async_connect();
        usleep(60000); for (int k = 0; k < 50; k++) { io.poll(); io.reset(); usleep(200); }
        bool ok = t->up ? t->is_connected() && t->down == 0 : t->is_closed() && t->down == 1; printf("up %d down %d\\n", t->up, t->down); if (!ok) return 1; t->close("end"); io.poll(); }
    return 0;
}
''', ['common.cc', 'common_internal.cc', 'rpc_endpoint.cc', 'rpc_error_code.cc'], 'the connect completion and the connect timer are handled one after the other by a worker that was busy until both were due', 'a connection that has just been opened is closed by the timer of its opening')
full('L01-long-call-idle', 'L01', [('rpc_server_impl.cc', '                        && stream->pending_process_count() == 0)', '                        && stream->pending_process_count() < 2)')], '''
int main() {
    RpcServerOptions o; o.keep_alive_time = 1; int port; RpcServer* s = serve(&port, o); RpcClient c; RpcChannel ch(&c, "127.0.0.1", port); vfe::Echo_Stub st(&ch);
    sofa::pbrpc::RpcController k; k.SetTimeout(6000); vfe::Req q; q.set_text("slow"); q.set_n(2500); vfe::Rsp r; st.Later(&k, &q, &r, NULL);
    verdict(!k.Failed() && r.text() == "slow", k.ErrorText());
}
''', 'a single call that takes longer than the keep-alive time of the server', 'its connection is closed as idle while the call is in progress')
