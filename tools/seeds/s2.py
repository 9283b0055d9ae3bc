import sys; sys.path.insert(0, '/verif/tools')
from newseed import make, full
full('F01-stale-body-count', 'F01', [
 ('rpc_message_stream.h', "        _receiving_message.reset(new ReadBuffer());\n        _received_message_size = 0;\n        _received_header_size = 0;", "        _receiving_message.reset(new ReadBuffer());\n        _received_header_size = 0;"),
 ('rpc_message_stream.h', "                if (identify_result > 0)\n                {\n                    _receiving_header_identified = true;", "                if (identify_result > 0)\n                {\n                    _receiving_header_identified = true;\n                    if (consumed == static_cast<int>(sizeof(_receiving_header)))\n                    {\n                        _received_message_size = 0;\n                    }")],
'''
int main() {
    int port; int ls = listen_any(&port);
    std::thread peer([&] {
        int fd = accept(ls, 0, 0); string buf; Frame f; Frame g; next(fd, buf, &f, 5000); next(fd, buf, &g, 5000);
        int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        string a = answer(f.m.sequence_id(), "first answer, long enough to be cut"), b = answer(g.m.sequence_id(), "second answer");
        wr(fd, a.substr(0, 40)); nap(100000); wr(fd, a.substr(40) + b.substr(0, 10)); nap(100000); wr(fd, b.substr(10)); nap(1500000);
    });
    RpcClient c; RpcChannel ch(&c, "127.0.0.1", port); vfe::Echo_Stub st(&ch);
    sofa::pbrpc::RpcController c1, c2; vfe::Req q; q.set_text("x"); vfe::Rsp r1, r2; std::atomic<int> n(0);
    struct D { static void f(std::atomic<int>* n) { ++*n; } }; c1.SetTimeout(3000); c2.SetTimeout(3000);
    st.Call(&c1, &q, &r1, NewClosure(&D::f, &n)); st.Call(&c2, &q, &r2, NewClosure(&D::f, &n));
    peer.join(); for (int i = 0; i < 300 && n < 2; i++) nap(20000);
    verdict(n == 2 && !c1.Failed() && !c2.Failed() && r2.text() == "second answer" && r1.text().size() == 35, r1.text() + " / " + r2.text() + " / " + c2.ErrorText());
}
''', 'one response cut inside its body and the next one cut inside its header', 'the bytes counted for the first message are counted again for the second, which is cut short')
full('Q01-requeue-at-back', 'Q01', [('rpc_message_stream.h', '                    insert_into_pending_queue(_sending_message, _sending_cookie);', '                    put_into_pending_queue(_sending_message, _sending_cookie);')],
'''
int main() {
    int port; int ls = listen_any(&port); std::vector<int> order; const int N = 40;
    std::thread peer([&] { int fd = accept(ls, 0, 0); string buf; Frame f; for (int i = 0; i < N && next(fd, buf, &f, 20000); i++) { order.push_back(req_of(f).n()); wr(fd, answer(f.m.sequence_id(), "ok")); } nap(200000); });
    RpcClientOptions o; o.max_throughput_out = 1; RpcClient c(o); RpcChannel ch(&c, "127.0.0.1", port); vfe::Echo_Stub st(&ch);
    std::atomic<int> n(0); struct D { static void f(std::atomic<int>* n) { ++*n; } }; string blob(50000, 'b');
    for (int i = 0; i < N; i++) { sofa::pbrpc::RpcController* k = new sofa::pbrpc::RpcController; k->SetTimeout(30000); vfe::Req q; q.set_text("x"); q.set_blob(blob); q.set_n(i); st.Call(k, &q, new vfe::Rsp, NewClosure(&D::f, &n)); }
    peer.join(); string s; bool ok = order.size() == N; for (size_t i = 0; i < order.size(); i++) { s += S(order[i]) + " "; if (order[i] != (int)i) ok = false; }
    verdict(ok, s);
}
''', 'an output limit that is reached while several requests wait', 'the request that had to wait for quota is overtaken by the ones queued after it')
full('Q02-requeue-at-back', 'Q02', [('rpc_server_message_stream.h', '                    insert_into_pending_queue(_sending_message, _sending_cookie);', '                    put_into_pending_queue(_sending_message, _sending_cookie);')],
'''
int main() {
    RpcServerOptions o; o.work_thread_num = 1; o.max_throughput_out = 1; int port; RpcServer* s = serve(&port, o); const int N = 40; int fd = dial(port);
    std::vector<int> order; string buf, out; Frame f; for (int i = 0; i < N; i++) out += ask("vfe.Echo.Call", i + 1, "x", i, string(50000, 'b'));
    std::thread w([&] { wr(fd, out); });
    for (int i = 0; i < N && next(fd, buf, &f, 20000); i++) order.push_back(f.m.sequence_id());
    w.join(); string t; bool ok = order.size() == N; for (size_t i = 0; i < order.size(); i++) { t += S(order[i]) + " "; if (order[i] != (int)i + 1) ok = false; }
    verdict(ok, t);
}
''', 'an output limit that is reached while several responses wait', 'the response that had to wait for quota is overtaken by the ones queued after it')
full('C01-outcome-before-claim', 'C01', [('rpc_controller_impl.h', '''        if (atomic_comp_swap(&_is_done, DONE, NOT_DONE) == NOT_DONE)
        {
            SetFailed(error_code, reason);
''', '''        SetFailed(error_code, reason);
        if (atomic_comp_swap(&_is_done, DONE, NOT_DONE) == NOT_DONE)
        {
''')], '''
#include <sofa/pbrpc/rpc_controller_impl.h>
int main() {
    RpcControllerImplPtr c(new RpcControllerImpl); c->Done(RPC_SUCCESS, "succeed"); c->Done(RPC_ERROR_CONNECTION_CLOSED, "late");
    RpcControllerImplPtr d(new RpcControllerImpl); d->Done(RPC_ERROR_REQUEST_TIMEOUT, "timeout"); d->Done(RPC_SUCCESS, "succeed");
    verdict(!c->Failed() && d->Failed() && d->ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT, "first outcomes kept: " + S(c->ErrorCode()) + " " + S(d->ErrorCode()));
}
''', 'two outcomes for one call (an answer and, later, a timeout or a closing connection)', 'the later outcome replaces the one the caller was told')
full('T01-idle-tick', 'T01', [('rpc_timeout_manager.h', '''        ScopedLocker<FastLock> _(_events_lock);
        EventList::iterator add_it = tmp_add_list.begin();''', '''        if (tmp_add_list.empty() && tmp_erase_set.empty())
            return; // nothing changed since the last tick

        ScopedLocker<FastLock> _(_events_lock);
        EventList::iterator add_it = tmp_add_list.begin();''')], '''
int main() {
    int port; int ls = listen_any(&port); std::thread peer([&] { int fd = accept(ls, 0, 0); string b; for (int i = 0; i < 300; i++) rd(fd, b, 50); }); peer.detach();
    RpcClient c; RpcChannel ch(&c, "127.0.0.1", port); vfe::Echo_Stub st(&ch); sofa::pbrpc::RpcController k; k.SetTimeout(500); vfe::Req q; q.set_text("x"); vfe::Rsp r;
    std::atomic<int> n(0); struct D { static void f(std::atomic<int>* n) { ++*n; } }; int64_t t0 = now_ms(); st.Call(&k, &q, &r, NewClosure(&D::f, &n));
    while (!n && now_ms() - t0 < 6000) nap(10000);
    verdict(n == 1 && k.Failed() && k.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT, "done " + S(n) + " after " + S((now_ms() - t0) / 500) + " half seconds");
}
''', 'a silent server, and no other call started or finished around the deadline', 'the call never times out')
full('M01-late-close', 'M01', [('rpc_client_impl.cc', '''    StreamMap::iterator find = _stream_map.find(stream->remote_endpoint());
    if (find != _stream_map.end() && !find->second->is_closed())
    {
        return;
    }
    _stream_map.erase(stream->remote_endpoint());''', '''    _stream_map.erase(stream->remote_endpoint());''')], '''
static RpcClient* C; static RpcChannel* CH; static vfe::Echo_Stub* ST; static std::atomic<int> ndone(0), again(0); const int N = 20000;
static void second() { again++; }
static void first() { if (ndone++ == 0) { sofa::pbrpc::RpcController* k = new sofa::pbrpc::RpcController; k->SetTimeout(5000); vfe::Req q; q.set_text("again"); ST->Call(k, &q, new vfe::Rsp, NewClosure(&second)); } }
int main() {
    int port; int ls = listen_any(&port); std::atomic<int> conns(0);
    std::thread([&] { for (;;) { int fd = accept(ls, 0, 0); if (fd < 0) return; int id = ++conns; std::thread([=] {
        string b; Frame f; int n = 0; if (id == 1) { while (n < N && next(fd, b, &f, 20000)) n++; close(fd); return; }
        while (next(fd, b, &f, 20000)) wr(fd, answer(f.m.sequence_id(), "ok")); }).detach(); } }).detach();
    C = new RpcClient; CH = new RpcChannel(C, "127.0.0.1", port); ST = new vfe::Echo_Stub(CH);
    for (int i = 0; i < N; i++) { sofa::pbrpc::RpcController* k = new sofa::pbrpc::RpcController; k->SetTimeout(60000); vfe::Req q; q.set_text("x"); ST->Call(k, &q, new vfe::Rsp, NewClosure(&first)); }
    int64_t t0 = now_ms(); while ((ndone < N || !again) && now_ms() - t0 < 60000) nap(1000);
    nap(100000); int before = conns; sofa::pbrpc::RpcController k; k.SetTimeout(5000); vfe::Req q; q.set_text("last"); vfe::Rsp r; ST->Call(&k, &q, &r, NULL);
    verdict(before == 2 && conns == 2 && !k.Failed(), S(before) + " then " + S(conns) + " connections, " + k.ErrorText());
}
''', 'a call made from the callback of a call that failed because the connection closed, while the closing is still being reported to the others', 'the new connection is forgotten when the old one has finished closing, and the next call opens another')
full('D01-timeout-width', 'D01', [('rpc_controller_impl.h', '    int64 _server_timeout;', '    int32 _server_timeout;')], '''
int main() {
    int port; RpcServer* s = serve(&port); int fd = dial(port); RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(7); m.set_method("vfe.Echo.Later"); m.set_server_timeout((1LL << 32) + 1);
    vfe::Req q; q.set_text("slow"); q.set_n(100); string a, b, buf; m.SerializeToString(&a); q.SerializeToString(&b); wr(fd, frame(a, b)); Frame f;
    bool ok = next(fd, buf, &f, 3000); verdict(ok && f.m.sequence_id() == 7 && !f.m.failed(), ok ? "answered" : "no answer");
}
''', 'a request whose timeout is a little more than a multiple of 2^32 milliseconds', 'the request is taken for expired and dropped')
full('S01-short-id', 'S01', [('rpc_client_stream.h', '''        RpcControllerImplPtr cntl;
        {
            ScopedLocker<FastLock> _(_controller_map_lock);
            ControllerMap::iterator it = _controller_map.find(meta.sequence_id());''', '''        RpcControllerImplPtr cntl;
        unsigned sequence_id = meta.sequence_id();
        {
            ScopedLocker<FastLock> _(_controller_map_lock);
            ControllerMap::iterator it = _controller_map.find(sequence_id);''')], '''
int main() {
    int port; int ls = listen_any(&port);
    std::thread peer([&] { int fd = accept(ls, 0, 0); string b; Frame f; if (!next(fd, b, &f, 5000)) return; wr(fd, answer(f.m.sequence_id() + (5ULL << 32), "not yours")); nap(50000); wr(fd, answer(f.m.sequence_id(), "yours")); nap(300000); });
    RpcClient c; RpcChannel ch(&c, "127.0.0.1", port); vfe::Echo_Stub st(&ch); sofa::pbrpc::RpcController k; k.SetTimeout(3000); vfe::Req q; q.set_text("x"); vfe::Rsp r; st.Call(&k, &q, &r, NULL); peer.join();
    verdict(!k.Failed() && r.text() == "yours", r.text() + " " + k.ErrorText());
}
''', 'a response whose sequence id differs from that of an outstanding call only above bit 31', 'it completes a call it does not answer')
full('H01-stale-length', 'H01', [('http_rpc_request_parser.cc', '    _content_length = 0;\n', '')], '''
int main() {
    int port; RpcServer* s = serve(&port); int fd = dial(port); string b; string js = "{\\"text\\":\\"first\\",\\"n\\":1}";
    wr(fd, "POST /vfe.Echo.Call HTTP/1.1\\r\\nContent-Length: " + S(js.size()) + "\\r\\n\\r\\n" + js); int64_t t0 = now_ms(); while (b.find("first") == string::npos && now_ms() - t0 < 3000) rd(fd, b, 50);
    bool one = b.find("first") != string::npos; wr(fd, "GET /vfe.Echo.Call?request={\\"text\\":\\"second\\",\\"n\\":2} HTTP/1.1\\r\\n\\r\\n"); t0 = now_ms(); while (b.find("second") == string::npos && now_ms() - t0 < 3000) rd(fd, b, 50);
    verdict(one && b.find("second") != string::npos, one ? "first answered" : "first not answered");
}
''', 'a request with a body followed, on the same connection, by one without a length', 'the second request waits for a body that never comes')
full('H02-zero-byte', 'H02', [('http_rpc_request.cc', '    printer.PrintRaw(body);', '    printer.PrintRaw(body.c_str());')], '''
int main() {
    int port; RpcServer* s = serve(&port); int fd = dial(port); vfe::Req q; q.set_text("t"); q.set_n(0); q.set_blob(string("a\\0b", 3)); string body, b; q.SerializeToString(&body);
    wr(fd, "POST /vfe.Echo.Call HTTP/1.1\\r\\nAccept: application/protobuf\\r\\nContent-Length: " + S(body.size()) + "\\r\\n\\r\\n" + body); int64_t t0 = now_ms(); vfe::Rsp r; bool ok = false;
    while (!ok && now_ms() - t0 < 3000) { rd(fd, b, 50); size_t e = b.find("\\r\\n\\r\\n"), p = b.find("Content-Length: "); if (e == string::npos || p == string::npos) continue; size_t n = atol(b.c_str() + p + 16); if (b.size() >= e + 4 + n) { ok = r.ParseFromString(b.substr(e + 4, n)) && r.blob() == q.blob() && r.text() == "t"; break; } }
    verdict(ok, S(b.size()) + " bytes");
}
''', 'a protobuf answer that contains a zero byte', 'the answer ends at the zero byte although its length says more')
full('F02-magic-cut', 'F02', [('rpc_server_message_stream.h', 'memcpy(_magic_string + _magic_string_recved_bytes, data, consumed);', 'memcpy(_magic_string + (consumed < 4 && size > consumed ? 4 - consumed : 0), data, consumed);')], '''
int main() {
    int port; RpcServer* s = serve(&port); int fd = dial(port); string b, m = ask("vfe.Echo.Call", 9, "hello", 1); Frame f;
    for (int i = 0; i < 4; i++) { wr(fd, m.substr(i, 1)); nap(100000); } wr(fd, m.substr(4));
    bool ok = next(fd, b, &f, 3000); verdict(ok && f.m.sequence_id() == 9 && !f.m.failed(), ok ? "answered" : "no answer");
}
''', 'the four magic bytes of a request arriving in three or more packets', 'a well-formed request is refused')
