From 29dc2ebef9e3c22480e051eda91527e426a2f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 01/13] fix: index the hex tables of bin2hex/hex2bin with
 unsigned bytes

---
 src/sofa/pbrpc/bin2ascii.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/bin2ascii.h b/src/sofa/pbrpc/bin2ascii.h
index 7284ba0..89922db 100644
--- a/src/sofa/pbrpc/bin2ascii.h
+++ b/src/sofa/pbrpc/bin2ascii.h
@@ -42,8 +42,8 @@ inline std::string hex2bin(const std::string &s)
 	std::string r;
 	r.reserve(s.size() / 2);
 	for (size_t i = 0; i < s.size(); i += 2) {
-		char hi = lookup[(size_t)s[i]];
-		char lo = lookup[(size_t)s[i+1]];
+		char hi = lookup[(unsigned char)s[i]];
+		char lo = lookup[(unsigned char)s[i+1]];
 		if (0x80 & (hi | lo))
 			throw std::runtime_error("Invalid hex data: " + s.substr(i, 6));
 		r.push_back((hi << 4) | lo);
@@ -57,7 +57,7 @@ inline std::string bin2hex(const std::string &s)
 	std::string r;
 	r.reserve(s.size() * 2);
 	for (size_t i = 0; i < s.size(); i++) {
-		char hi = s[i] >> 4;
+		char hi = (unsigned char)s[i] >> 4;
 		char lo = s[i] & 0xf;
 		r.push_back(lookup[(size_t)hi]);
 		r.push_back(lookup[(size_t)lo]);
-- 
2.43.0


From fe9ab98738b6fb4f8e3fe8b051831fae5240aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 02/13] fix: reject response headers with negative or
 inconsistent sizes

---
 src/sofa/pbrpc/rpc_message_stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_message_stream.h b/src/sofa/pbrpc/rpc_message_stream.h
index 4e5ccb4..70aa4a7 100644
--- a/src/sofa/pbrpc/rpc_message_stream.h
+++ b/src/sofa/pbrpc/rpc_message_stream.h
@@ -687,7 +687,10 @@ private:
 #endif
                 return -1;
             }
-            if (_receiving_header.meta_size + _receiving_header.data_size != _receiving_header.message_size)
+            if (_receiving_header.meta_size < 0
+                    || _receiving_header.data_size < 0
+                    || _receiving_header.message_size < 0
+                    || _receiving_header.message_size - _receiving_header.meta_size != _receiving_header.data_size)
             {
 #if defined( LOG )
                 LOG(ERROR) << "identify_message_header(): " << RpcEndpointToString(_remote_endpoint)
-- 
2.43.0


From d730666ccbad020feda503fd2fc466f3113ce36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 03/13] fix: a failed response with a success error code must
 not abort the client

---
 src/sofa/pbrpc/rpc_client_stream.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_client_stream.h b/src/sofa/pbrpc/rpc_client_stream.h
index 4a80904..6c6cbef 100644
--- a/src/sofa/pbrpc/rpc_client_stream.h
+++ b/src/sofa/pbrpc/rpc_client_stream.h
@@ -271,6 +271,19 @@ private:
 #endif
                 cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "rpc meta: \"reason\" field not set");
             }
+            else if (meta.error_code() == RPC_SUCCESS)
+            {
+#if defined( LOG )
+                LOG(ERROR) << "on_received(): " << RpcEndpointToString(_remote_endpoint)
+                           << " {" << meta.sequence_id() << "}"
+                           << ": bad rpc meta: failed, but \"error_code\" is success";
+#else
+                SLOG(ERROR,  "on_received(): %s {%lu}: bad rpc meta: failed, but \"error_code\" is success",
+                        RpcEndpointToString(_remote_endpoint).c_str(), meta.sequence_id());
+#endif
+                cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE,
+                        "rpc meta: failed, but \"error_code\" is success");
+            }
             else
             {
                 cntl->Done(meta.error_code(), meta.reason());
-- 
2.43.0


From 2a4ff145605a28f9012994a6f22a3965e1131190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 04/13] fix: reject request headers with negative or
 inconsistent sizes

---
 src/sofa/pbrpc/binary_rpc_request_parser.cc | 23 +++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/sofa/pbrpc/binary_rpc_request_parser.cc b/src/sofa/pbrpc/binary_rpc_request_parser.cc
index 879826c..605532c 100644
--- a/src/sofa/pbrpc/binary_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/binary_rpc_request_parser.cc
@@ -70,6 +70,29 @@ int BinaryRpcRequestParser::Parse(const char* buf,
                 // header not complete
                 return 0;
             }
+            if (_req->_req_header.meta_size < 0
+                    || _req->_req_header.data_size < 0
+                    || _req->_req_header.message_size < 0
+                    || _req->_req_header.message_size - _req->_req_header.meta_size
+                            != _req->_req_header.data_size)
+            {
+                // check size in header failed
+#if defined( LOG )
+                LOG(ERROR) << "Parse(): " << RpcEndpointToString(_req->_remote_endpoint)
+                           << ": check size in header failed"
+                           << ": meta_size=" << _req->_req_header.meta_size
+                           << ", data_size=" << _req->_req_header.data_size
+                           << ", message_size=" << _req->_req_header.message_size;
+#else
+                SLOG(ERROR, "Parse(): %s: check size in header failed: "
+                     "meta_size=%d, data_size=%lld, message_size=%lld",
+                     RpcEndpointToString(_req->_remote_endpoint).c_str(),
+                     _req->_req_header.meta_size,
+                     _req->_req_header.data_size,
+                     _req->_req_header.message_size);
+#endif
+                return -1;
+            }
             if (_req->_req_header.message_size == 0)
             {
                 // all complete
-- 
2.43.0


From a7421c38569fc96c95e55cca10428ec329308510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 05/13] fix: HTTP body length of 2 GiB or more is not truncated
 to int

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index b2fdf5a..e6da380 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -91,7 +91,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
     }
     if (_state == PS_BODY)
     {
-        int bytes_remain = _content_length - _req->_req_body->TotalCount();
+        int64 bytes_remain = _content_length - _req->_req_body->TotalCount();
         if (bytes_remain == 0)
         {
             return 1;
@@ -100,7 +100,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
         {
             return 0;
         }
-        int consume = std::min(data_size, bytes_remain);
+        int consume = static_cast<int>(std::min<int64>(data_size, bytes_remain));
         _req->_req_body->Append(BufHandle(const_cast<char*>(buf), consume, offset));
         *bytes_consumed += consume;
         if (_content_length == _req->_req_body->TotalCount())
-- 
2.43.0


From 50136091761be2db8ee4207ff83339ea3d08ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 06/13] fix: RpcServer::Start reports failure when the maintain
 thread group does not start

---
 src/sofa/pbrpc/rpc_server_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 16455fb..8a7a9cd 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -96,6 +96,7 @@ bool RpcServerImpl::Start(const std::string& server_address)
 #endif
         _maintain_thread_group.reset();
         _flow_controller.reset();
+        return false;
     }
 
     _io_service_pool.reset(new IOServicePool(
-- 
2.43.0


From 271fe06d5f9d6906f7f0604bd0cc08a732101889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 07/13] fix: JSON parsing does not read past the end of the
 text

---
 src/rapidjson/rapidjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapidjson/rapidjson.h b/src/rapidjson/rapidjson.h
index cc467ba..7acb2aa 100644
--- a/src/rapidjson/rapidjson.h
+++ b/src/rapidjson/rapidjson.h
@@ -47,7 +47,7 @@ typedef unsigned __int64 uint64_t;
 // RAPIDJSON_SSE2/RAPIDJSON_SSE42/RAPIDJSON_SIMD
 
 // Enable SSE2 optimization.
-#define RAPIDJSON_SSE2
+//#define RAPIDJSON_SSE2
 
 // Enable SSE4.2 optimization.
 //#define RAPIDJSON_SSE42
-- 
2.43.0


From d9b958980f66fe14a357144c04f1936e98f94fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 08/13] fix: a throughput limit of 20480 MB/s or more is not
 truncated to a negative quota

---
 src/sofa/pbrpc/flow_controller.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/sofa/pbrpc/flow_controller.h b/src/sofa/pbrpc/flow_controller.h
index 9d38446..d4a97c3 100644
--- a/src/sofa/pbrpc/flow_controller.h
+++ b/src/sofa/pbrpc/flow_controller.h
@@ -13,28 +13,29 @@ namespace pbrpc {
 class FlowController
 {
 public:
-    FlowController(bool read_no_limit, int read_quota,
-                   bool write_no_limit, int write_quota)
-        : _read_no_limit(read_no_limit), _read_quota(read_quota)
-        , _write_no_limit(write_no_limit), _write_quota(write_quota) {}
+    FlowController(bool read_no_limit, int64 read_quota,
+                   bool write_no_limit, int64 write_quota)
+        : _read_no_limit(read_no_limit), _read_quota(to_int(read_quota))
+        , _write_no_limit(write_no_limit), _write_quota(to_int(write_quota)) {}
 
     ~FlowController() {}
 
     // Reset read quota.
     // @param read_no_limit  if set as no limit.
     // @param quota  the new quota, only useful when read_no_limit is false.
-    void reset_read_quota(bool read_no_limit, int quota)
+    void reset_read_quota(bool read_no_limit, int64 quota)
     {
         _read_no_limit = read_no_limit;
-        _read_quota = quota;
+        _read_quota = to_int(quota);
     }
 
     // Recharge read quota.
     // @param quota  the quota to recharge.
-    void recharge_read_quota(int quota)
+    void recharge_read_quota(int64 slice_quota)
     {
         if (_read_no_limit)
             return;
+        int quota = to_int(slice_quota);
         int old_quota = _read_quota;
         int new_quota = old_quota > 0 ? quota : old_quota + quota;
         while (atomic_comp_swap(&_read_quota, new_quota, old_quota) != old_quota)
@@ -47,18 +48,19 @@ public:
     // Reset write quota.
     // @param write_no_limit  if set as no limit.
     // @param quota  the new quota, only useful when write_no_limit is false.
-    void reset_write_quota(bool write_no_limit, int quota)
+    void reset_write_quota(bool write_no_limit, int64 quota)
     {
         _write_no_limit = write_no_limit;
-        _write_quota = quota;
+        _write_quota = to_int(quota);
     }
 
     // Recharge write quota.
     // @param quota  the quota to recharge.
-    void recharge_write_quota(int quota)
+    void recharge_write_quota(int64 slice_quota)
     {
         if (_write_no_limit)
             return;
+        int quota = to_int(slice_quota);
         int old_quota = _write_quota;
         int new_quota = old_quota > 0 ? quota : old_quota + quota;
         while (atomic_comp_swap(&_write_quota, new_quota, old_quota) != old_quota)
@@ -118,6 +120,14 @@ public:
         return old_quota;
     }
 
+private:
+    // The quota of a slice may exceed the range of int, because max throughput is in MB.
+    static int to_int(int64 quota)
+    {
+        const int max_quota = 0x7fffffff;
+        return quota > max_quota ? max_quota : static_cast<int>(quota);
+    }
+
 private:
     bool _read_no_limit;
     volatile int _read_quota;
-- 
2.43.0


From a1cbd13c6af205ee6b38789d22b4e7260951de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 09/13] fix: ResetOptions of the client resets the flow
 control, and that of a stopped server does not crash

---
 src/sofa/pbrpc/rpc_client_impl.cc | 11 +++++++++++
 src/sofa/pbrpc/rpc_server_impl.cc |  5 +++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index ae08b10..2f2d9c7 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -161,6 +161,17 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         }
     }
 
+    // no flow controller when not running, and Start() creates it with the new quota
+    if (_flow_controller && _slice_quota_in != old_slice_quota_in)
+    {
+        _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
+    }
+
+    if (_flow_controller && _slice_quota_out != old_slice_quota_out)
+    {
+        _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
+    }
+
 #if defined( LOG )
     LOG(INFO) << "ResetOptions(): quota_in="
               << (_slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L))
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 8a7a9cd..6d276ce 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -247,12 +247,13 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         }
     }
 
-    if (_slice_quota_in != old_slice_quota_in)
+    // no flow controller when not running, and Start() creates it with the new quota
+    if (_flow_controller && _slice_quota_in != old_slice_quota_in)
     {
         _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
     }
 
-    if (_slice_quota_out != old_slice_quota_out)
+    if (_flow_controller && _slice_quota_out != old_slice_quota_out)
     {
         _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
     }
-- 
2.43.0


From 14ae823b91250bbb79c3c92e6dd09592e38cc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 10/13] fix: connections that wait for quota go on when the
 limit is lifted

---
 src/sofa/pbrpc/rpc_client_impl.cc | 17 ++++++++++++-----
 src/sofa/pbrpc/rpc_client_impl.h  |  1 +
 src/sofa/pbrpc/rpc_server_impl.cc | 17 ++++++++++++-----
 src/sofa/pbrpc/rpc_server_impl.h  |  1 +
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 2f2d9c7..a1e173a 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -27,6 +27,7 @@ RpcClientImpl::RpcClientImpl(const RpcClientOptions& options)
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    _flow_limited = _slice_quota_in != -1 || _slice_quota_out != -1;
     _max_pending_buffer_size =
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -147,6 +148,10 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    if (_slice_quota_in != -1 || _slice_quota_out != -1)
+    {
+        _flow_limited = true;
+    }
     _max_pending_buffer_size =
         std::max(0L, options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -482,7 +487,7 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
     int64 now_ticks = (now - _epoch_time).ticks();
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _slice_quota_in != -1 || _slice_quota_out != -1)
+    if (_keep_alive_ticks != -1 || _flow_limited)
     {
         StreamMap streams;
         {
@@ -514,8 +519,9 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
             }
         }
 
-        // flow control in
-        if (_slice_quota_in != -1)
+        // flow control in: also when the limit has been lifted, because there may be
+        // streams still waiting for quota
+        if (_flow_limited)
         {
             // recharge quota pool
             _flow_controller->recharge_read_quota(_slice_quota_in);
@@ -549,8 +555,9 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
             }
         }
 
-        // flow control out
-        if (_slice_quota_out != -1)
+        // flow control out: also when the limit has been lifted, because there may be
+        // streams still waiting for quota
+        if (_flow_limited)
         {
             // recharge quota pool
             _flow_controller->recharge_write_quota(_slice_quota_out);
diff --git a/src/sofa/pbrpc/rpc_client_impl.h b/src/sofa/pbrpc/rpc_client_impl.h
index b3307d5..0981927 100644
--- a/src/sofa/pbrpc/rpc_client_impl.h
+++ b/src/sofa/pbrpc/rpc_client_impl.h
@@ -102,6 +102,7 @@ private:
     int64 _slice_count;
     int64 _slice_quota_in;
     int64 _slice_quota_out;
+    bool _flow_limited; // if some throughput has ever been limited
     int64 _max_pending_buffer_size;
     int64 _keep_alive_ticks;
 
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 6d276ce..826b86c 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -40,6 +40,7 @@ RpcServerImpl::RpcServerImpl(const RpcServerOptions& options,
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    _flow_limited = _slice_quota_in != -1 || _slice_quota_out != -1;
     _max_pending_buffer_size =
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -233,6 +234,10 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    if (_slice_quota_in != -1 || _slice_quota_out != -1)
+    {
+        _flow_limited = true;
+    }
     _max_pending_buffer_size = 
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -492,7 +497,7 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
     }
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _slice_quota_in != -1 || _slice_quota_out != -1)
+    if (_keep_alive_ticks != -1 || _flow_limited)
     {
         StreamSet streams;
         {
@@ -524,8 +529,9 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
             }
         }
 
-        // flow control in
-        if (_slice_quota_in != -1)
+        // flow control in: also when the limit has been lifted, because there may be
+        // streams still waiting for quota
+        if (_flow_limited)
         {
             // recharge quota pool
             _flow_controller->recharge_read_quota(_slice_quota_in);
@@ -559,8 +565,9 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
             }
         }
 
-        // flow control out
-        if (_slice_quota_out != -1)
+        // flow control out: also when the limit has been lifted, because there may be
+        // streams still waiting for quota
+        if (_flow_limited)
         {
             // recharge quota pool
             _flow_controller->recharge_write_quota(_slice_quota_out);
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index 006d76b..90da0f3 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -109,6 +109,7 @@ private:
     int64 _slice_count;
     int64 _slice_quota_in;
     int64 _slice_quota_out;
+    bool _flow_limited; // if some throughput has ever been limited
     int64 _max_pending_buffer_size;
     int64 _keep_alive_ticks;
     int64 _restart_listen_interval_ticks;
-- 
2.43.0


From e74949e3387f3b9c85aaf22d2b9141d546d2099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 11/13] fix: stopping a server waits for its maintenance run
 before releasing what it uses

---
 src/sofa/pbrpc/mutex_lock.h       |  4 ++++
 src/sofa/pbrpc/rpc_server_impl.cc | 16 ++++++++++++++--
 src/sofa/pbrpc/rpc_server_impl.h  |  2 ++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/mutex_lock.h b/src/sofa/pbrpc/mutex_lock.h
index ac35e32..b241277 100644
--- a/src/sofa/pbrpc/mutex_lock.h
+++ b/src/sofa/pbrpc/mutex_lock.h
@@ -26,6 +26,10 @@ public:
     {
         pthread_mutex_lock(&_lock);
     }
+    bool try_lock()
+    {
+        return pthread_mutex_trylock(&_lock) == 0;
+    }
     void unlock()
     {
         pthread_mutex_unlock(&_lock);
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 826b86c..f5bbf17 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -188,12 +188,13 @@ void RpcServerImpl::Stop()
     _timer_worker->stop();
     _listener->close();
     StopStreams();
+    // TimerMaintain() may be running, so wait for it before releasing what it uses
+    _maintain_thread_group->stop();
 
     _timer_worker.reset();
     _listener.reset();
     ClearStreams();
     _io_service_pool->Stop();
-    _maintain_thread_group->stop();
 
     _io_service_pool.reset();
     _maintain_thread_group.reset();
@@ -347,7 +348,18 @@ bool RpcServerImpl::IsListening()
 
 bool RpcServerImpl::RestartListen()
 {
-    ScopedLocker<MutexLock> _(_start_stop_lock);
+    // Stop() waits for the maintain thread with the lock held, so do not wait for the lock
+    if (!_start_stop_lock.try_lock())
+    {
+        return false;
+    }
+    bool ret = RestartListenLocked();
+    _start_stop_lock.unlock();
+    return ret;
+}
+
+bool RpcServerImpl::RestartListenLocked()
+{
     if (!_is_running)
     {
 #if defined( LOG )
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index 90da0f3..2fd5f13 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -63,6 +63,8 @@ public:
     Servlet UnregisterWebServlet(const std::string& path);
 
 private:
+    bool RestartListenLocked();
+
     void OnCreated(const RpcServerStreamPtr& stream);
 
     void OnAccepted(const RpcServerStreamPtr& stream);
-- 
2.43.0


From 512157d0a06364ee6b685af062a4a007dbd4d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 12/13] fix: a connection that was closed is not revived when
 connecting finishes

---
 src/sofa/pbrpc/rpc_byte_stream.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index a3b6dd7..e6560ce 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -135,7 +135,11 @@ public:
 
         _last_rw_ticks = _ticks;
 
-        _status = STATUS_CONNECTING;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTING, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            // closed before connecting, must stay closed
+            return;
+        }
         _socket.async_connect(_remote_endpoint,
                 boost::bind(&RpcByteStream::on_connect, shared_from_this(), _1));
         if (_connect_timeout > 0) 
@@ -218,7 +222,11 @@ public:
             return;
         }
 
-        _status = STATUS_CONNECTED;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            // closed in the meantime, must stay closed
+            return;
+        }
         trigger_receive();
         trigger_send();
     }
@@ -399,6 +407,12 @@ private:
             return;
         }
 
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_CONNECTING) != STATUS_CONNECTING)
+        {
+            // closed in the meantime, must stay closed
+            return;
+        }
+
 #if defined( LOG )
         LOG(INFO) << "on_connect(): connection established: "
                   << RpcEndpointToString(_remote_endpoint);
@@ -407,7 +421,6 @@ private:
                 RpcEndpointToString(_remote_endpoint).c_str());
 #endif
 
-        _status = STATUS_CONNECTED;
         _timer.cancel();
 
         trigger_receive();
-- 
2.43.0


From 5c6c656c7eafd8743e885228597752f399c2ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 13/13] fix: statistics for a period of 2^31 seconds or more no
 longer abort the server

---
 src/sofa/pbrpc/service_pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/service_pool.h b/src/sofa/pbrpc/service_pool.h
index 66a1aa1..0980c1d 100644
--- a/src/sofa/pbrpc/service_pool.h
+++ b/src/sofa/pbrpc/service_pool.h
@@ -257,13 +257,13 @@ public:
 private:
     void GetRealPeriod(int64 expect_period, int64* real_period, int* slot_count)
     {
-        int sc = 1;
+        int64 sc = 1;
         if (expect_period > 1) {
             sc = (expect_period - 1) / STAT_SLOT_SECONDS + 1;
         }
-        sc = std::min(sc, STAT_SLOT_COUNT - 2);
+        sc = std::min(sc, static_cast<int64>(STAT_SLOT_COUNT - 2));
         *real_period = sc * STAT_SLOT_SECONDS;
-        *slot_count = sc;
+        *slot_count = static_cast<int>(sc);
     }
 
 private:
-- 
2.43.0

