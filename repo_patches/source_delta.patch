From 859e92544b618f2536322c89cbceb6590c19be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 01/30] fix: do not hang at shutdown when a worker is stopped
 while it is busy

worker::stop() sets m_running before waking the thread, but the thread
cleared m_running again at the end of the job it was still executing and
then waited for it forever.
---
 cybozu/worker.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index 797a04f..bdbebc8 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -66,7 +66,7 @@ public:
     //
     // The thread will be joined automatically.
     void stop() {
-        m_exit = true;
+        m_exit.store(true, std::memory_order_release);
         m_running.store(true, std::memory_order_release);
         notify();
         m_thread.join();
@@ -81,9 +81,13 @@ public:
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
                 throw_unix_error(errno, "read(eventfd)");
-            while( ! m_running.load(std::memory_order_acquire) );
+            while( ! m_running.load(std::memory_order_acquire) ) {
+                // if <stop> is called while this worker was busy, m_running
+                // has been cleared above after <stop> had set it.
+                if( m_exit.load(std::memory_order_acquire) ) return;
+            }
 
-            if( m_exit ) return;
+            if( m_exit.load(std::memory_order_acquire) ) return;
 
             m_job(m_buffer);
             m_buffer.reset();
@@ -93,7 +97,7 @@ public:
 private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_running;
-    bool m_exit;
+    std::atomic<bool> m_exit;
     const int m_event;
     dynbuf m_buffer;
     job m_job;
-- 
2.43.0


From 8a31b5edb7893229de004fe8a44b983aaacc9792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 02/30] fix: never reuse CAS identifiers

The CAS identifier restarted at 1 when an object was deleted and created
again, so a cas command carrying an identifier obtained from the previous
object could overwrite an object it had never seen.
---
 src/memcache/object.cpp | 23 ++++++++++++++++-------
 src/memcache/object.hpp |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index cd57921..05f4a2c 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -4,6 +4,7 @@
 #include "object.hpp"
 #include "stats.hpp"
 
+#include <atomic>
 #include <cstdint>
 #include <fcntl.h>
 #include <limits>
@@ -20,6 +21,14 @@ std::uint64_t to_uint64(const char* p, std::size_t len) {
     return static_cast<std::uint64_t>(ull);
 }
 
+// CAS identifiers must not be reused even if an object is removed and
+// created again under the same key.
+std::atomic<std::uint64_t> g_last_cas(0);
+
+std::uint64_t next_cas() noexcept {
+    return g_last_cas.fetch_add(1, std::memory_order_relaxed) + 1;
+}
+
 } // anonymous namespace
 
 namespace yrmcds { namespace memcache {
@@ -36,7 +45,7 @@ file_flusher::~file_flusher() {
 object::object(const char* p, std::size_t len,
                std::uint32_t flags_, std::time_t exptime)
     : m_length(len), m_data(0, g_config.secure_erase()), m_file(nullptr),
-      m_flags(flags_), m_exptime(exptime) {
+      m_flags(flags_), m_exptime(exptime), m_cas(next_cas()) {
     if( len > g_config.heap_data_limit() ) {
         m_file = std::unique_ptr<tempfile>(new tempfile);
         m_file->write(p, len);
@@ -49,7 +58,7 @@ object::object(const char* p, std::size_t len,
 
 object::object(std::uint64_t initial, std::time_t exptime)
     : m_length(0), m_data(24, g_config.secure_erase()),
-      m_file(nullptr), m_flags(0), m_exptime(exptime) {
+      m_file(nullptr), m_flags(0), m_exptime(exptime), m_cas(next_cas()) {
     char s_value[24]; // uint64 can be as large as 20 byte decimal string.
     m_length = ::snprintf(s_value, sizeof(s_value),
                           "%llu", (unsigned long long)initial);
@@ -61,7 +70,7 @@ void object::set(const char* p, std::size_t len,
                  std::uint32_t flags_, std::time_t exptime) {
     m_flags = flags_;
     m_exptime = exptime;
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     m_data.reset();
 
@@ -81,7 +90,7 @@ void object::set(const char* p, std::size_t len,
 }
 
 void object::append(const char* p, std::size_t len) {
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     if( len == 0 ) return;
 
@@ -103,7 +112,7 @@ void object::append(const char* p, std::size_t len) {
 }
 
 void object::prepend(const char* p, std::size_t len) {
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     if( len == 0 ) return;
 
@@ -146,7 +155,7 @@ std::uint64_t object::incr(std::uint64_t n) {
                           "%llu", (unsigned long long)u64_value);
     m_data.reset();
     m_data.append(s_value, m_length);
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     return u64_value;
 }
@@ -166,7 +175,7 @@ std::uint64_t object::decr(std::uint64_t n) {
                           "%llu", (unsigned long long)u64_value);
     m_data.reset();
     m_data.append(s_value, m_length);
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     return u64_value;
 }
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index a17cc41..75e2123 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -169,7 +169,7 @@ private:
     std::unique_ptr<tempfile> m_file;
     std::uint32_t m_flags;
     std::time_t m_exptime;
-    std::uint64_t m_cas = 1;
+    std::uint64_t m_cas;
     mutable unsigned int m_gc_old = 0;
     int m_lock = -1;
     std::thread::id m_unlocker;
-- 
2.43.0


From d79f61368f63b7a3a89581f15ea7de1af27d02d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 03/30] fix: parse decimal numbers of text requests correctly

A stale ERANGE in errno made the largest 64 bit number an error, and
negative numbers were accepted as huge positive numbers.
---
 src/memcache/memcache.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 23ba03a..86d1070 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -53,9 +53,11 @@ inline UInt to_uint(const char* p, bool& result) {
     static_assert( sizeof(UInt) <= sizeof(unsigned long long),
                    "UInt is larger than unsigned long long" );
     result = false;
+    // strtoull accepts and negates negative numbers.
+    if( *p < '0' || '9' < *p ) return 0;
     char* end;
+    errno = 0;
     unsigned long long i = strtoull(p, &end, 10);
-    if( i == 0 && p == end ) return 0;
     if( i == std::numeric_limits<unsigned long long>::max() &&
         errno == ERANGE ) return 0;
     char c = *end;
-- 
2.43.0


From 6e2d3d138c736ca05d0ecea33f8858fe959edf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 04/30] fix: reply NotFound to LaGKQ for missing objects

As documented in docs/locking.md, and as LaGQ does.
---
 src/memcache/sockets.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5967188..c5b1a0f 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -217,7 +217,8 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         std::tie(p, len) = cmd.key();
         if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) ) {
             g_stats.get_misses.fetch_add(1, relaxed);
-            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ )
+            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ ||
+                cmd.command() == binary_command::LaGKQ )
                 r.error( binary_status::NotFound );
         } else {
             g_stats.get_hits.fetch_add(1, relaxed);
-- 
2.43.0


From 4e0fe03368f38aac8c21a604594caccb89a88fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 05/30] fix: echo the request opcode in replies to unknown
 commands

---
 src/counter/counter.cpp   | 1 -
 src/memcache/memcache.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/counter/counter.cpp b/src/counter/counter.cpp
index 3b84948..4755686 100644
--- a/src/counter/counter.cpp
+++ b/src/counter/counter.cpp
@@ -109,7 +109,6 @@ void request::parse(const char* p, std::size_t len) noexcept {
         break;
 
     default:
-        m_command = counter::command::Unknown;
         m_status = counter::status::UnknownCommand;
         return;
     }
diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 86d1070..810fd8b 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -952,7 +952,6 @@ void binary_request::parse() noexcept {
         // this is intentional violation against the protocol definition.
         break;
     default:
-        m_command = binary_command::Unknown;
         m_status = binary_status::UnknownCommand;
         return;
     }
-- 
2.43.0


From f9530564ecb936716f6d14c68ae96e931fdbddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 06/30] fix: treat expired objects as missing in LaG commands

The object was locked before its expiry was checked, and a locked object
never counts as expired: stale data was returned and stayed locked.
---
 src/memcache/sockets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index c5b1a0f..b21cef5 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -184,6 +184,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::LaGK:
     case binary_command::LaGKQ:
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
+            if( obj.expired() ) return false;
             if( (binary_command::LaG <= cmd.command()) &&
                 (cmd.command() <= binary_command::LaGKQ) ) {
                 if( obj.locked() ) {
@@ -193,7 +194,6 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 obj.lock();
                 add_lock(k);
             }
-            if( obj.expired() ) return false;
             if( cmd.exptime() != mc::binary_request::EXPTIME_NONE ) {
                 obj.touch( cmd.exptime() );
                 if( ! m_slaves.empty() )
-- 
2.43.0


From 5d4d5fc8f5ce4ad217d6d0435b0ad85d46b635ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 07/30] fix: identify lock owners by connection, not by file
 descriptor

A descriptor number can be reused before the locks of the connection that
had it are released: a new connection then owned them.  Requests of a
connection that was closed meanwhile ran under another connection's
identity and made the server terminate with "object::unlock bug".
---
 src/memcache/object.cpp  |  2 +-
 src/memcache/object.hpp  |  6 +++---
 src/memcache/sockets.cpp | 14 +++++++++-----
 src/memcache/sockets.hpp |  1 +
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 05f4a2c..9cc85cd 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -33,7 +33,7 @@ std::uint64_t next_cas() noexcept {
 
 namespace yrmcds { namespace memcache {
 
-thread_local int g_context = -1;
+thread_local std::int64_t g_context = -1;
 
 file_flusher::~file_flusher() {
     if( m_fd == -1 ) return;
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index 75e2123..b32c247 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -25,8 +25,8 @@ namespace yrmcds { namespace memcache {
 
 // Context for object locking.
 //
-// The context is in fact the file descriptor of a client connection.
-extern thread_local int g_context;
+// The context is a number that identifies a client connection.
+extern thread_local std::int64_t g_context;
 
 
 // Purge temporary file contents from the page cache at dtor.
@@ -171,7 +171,7 @@ private:
     std::time_t m_exptime;
     std::uint64_t m_cas;
     mutable unsigned int m_gc_old = 0;
-    int m_lock = -1;
+    std::int64_t m_lock = -1;
     std::thread::id m_unlocker;
 };
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index b21cef5..638b7fa 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -5,7 +5,9 @@
 
 #include <cybozu/util.hpp>
 
+#include <atomic>
 #include <cstddef>
+#include <cstdint>
 #include <cstring>
 #include <sys/socket.h>
 #include <sys/types.h>
@@ -22,6 +24,10 @@ const char NOT_LOCKED[] = "CLIENT_ERROR object is not locked or not found\x0d\x0
 
 const std::memory_order relaxed = std::memory_order_relaxed;
 
+// Descriptor numbers are reused while locks of a closed connection may
+// still wait for their release, so they do not identify a connection.
+std::atomic<std::int64_t> g_last_context(0);
+
 } // anonymous namespace
 
 namespace yrmcds { namespace memcache {
@@ -37,17 +43,15 @@ memcache_socket::memcache_socket(int fd,
       m_finder(finder),
       m_hash(hash),
       m_pending(0),
-      m_slaves_origin(slaves) {
+      m_slaves_origin(slaves),
+      m_context(g_last_context.fetch_add(1, relaxed) + 1) {
     m_slaves.reserve(MAX_SLAVES);
     g_stats.curr_connections.fetch_add(1, relaxed);
     g_stats.total_connections.fetch_add(1, relaxed);
 
     m_recvjob = [this](cybozu::dynbuf& buf) {
         // set lock context for objects.
-        with_fd([](int fd) -> bool {
-            g_context = fd;
-            return true;
-        });
+        g_context = m_context;
 
         // load pending data
         if( ! m_pending.empty() ) {
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index f591074..5453756 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -74,6 +74,7 @@ private:
     cybozu::dynbuf m_pending;
     const std::vector<repl_socket*>& m_slaves_origin;
     std::vector<repl_socket*> m_slaves;
+    const std::int64_t m_context;
     cybozu::worker::job m_recvjob;
     cybozu::worker::job m_sendjob;
     std::vector<std::reference_wrapper<const cybozu::hash_key>> m_locks;
-- 
2.43.0


From b51dbd426b206e762fedafbb775d8410e93d7dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 08/30] fix: treat expired objects that await collection as
 missing

DELETE confirmed the removal of an expired object, INCR/DECR with an initial
value failed instead of creating the object, and UNLOCK/RaU reported
"not locked" instead of "not found".
---
 src/memcache/object.cpp  |  7 +++++++
 src/memcache/object.hpp  |  1 +
 src/memcache/sockets.cpp | 34 ++++++++++++++++++++++++++++++++--
 3 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 9cc85cd..8ce22ed 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -89,6 +89,13 @@ void object::set(const char* p, std::size_t len,
     m_length = len;
 }
 
+void object::set(std::uint64_t initial, std::time_t exptime) {
+    char s_value[24]; // uint64 can be as large as 20 byte decimal string.
+    std::size_t len = ::snprintf(s_value, sizeof(s_value),
+                                 "%llu", (unsigned long long)initial);
+    set(s_value, len, 0, exptime);
+}
+
 void object::append(const char* p, std::size_t len) {
     m_cas = next_cas();
     m_gc_old = 0;
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index b32c247..75e0608 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -70,6 +70,7 @@ public:
 
     void set(const char* p, std::size_t len,
              std::uint32_t flags_, std::time_t exptime);
+    void set(std::uint64_t initial, std::time_t exptime);
     void append(const char* p, std::size_t len);
     void prepend(const char* p, std::size_t len);
     std::uint64_t incr(std::uint64_t n);
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 638b7fa..39becc4 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -313,6 +313,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             return;
         }
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
+            if( obj.expired() ) return false;
             if( ! obj.locked_by_self() ) {
                 r.error( binary_status::NotLocked );
                 return true;
@@ -399,6 +400,11 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.quiet() )
+                    r.error( binary_status::NotFound );
+                return false;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -424,7 +430,16 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                obj.set( cmd.initial(), cmd.exptime() );
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -462,7 +477,16 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                obj.set( cmd.initial(), cmd.exptime() );
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -526,6 +550,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::Unlock:
     case binary_command::UnlockQ:
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
+            if( obj.expired() ) return false;
             if( ! obj.locked_by_self() ) {
                 r.error( binary_status::NotLocked );
                 return true;
@@ -826,6 +851,11 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
                     r.locked();
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.no_reply() )
+                    r.not_found();
+                return false;
+            }
             if( obj.locked_by_self() )
                 remove_lock(k);
             if( ! cmd.no_reply() )
-- 
2.43.0


From 4bdf7e9db18a382d99e5da89f44773be5516fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 09/30] fix: do not lose a flush_all issued while objects are
 being flushed

The collector cleared flush_time unconditionally when it had finished, so a
flush_all acknowledged during the collection was forgotten.
---
 src/memcache/gc.cpp      | 10 ++++++++--
 src/memcache/sockets.cpp |  4 ++--
 src/memcache/stats.hpp   | 19 +++++++++++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 31fcbc3..551d5c9 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -52,7 +52,13 @@ void gc_thread::run() {
 }
 
 void gc_thread::gc() {
-    std::time_t t = g_stats.flush_time.load();
+    std::time_t t;
+    std::uint64_t flush_seq;
+    {
+        std::lock_guard<std::mutex> g(g_stats.flush_lock);
+        t = g_stats.flush_time.load();
+        flush_seq = g_stats.flush_seq;
+    }
     bool flush = (t != 0) && (std::time(nullptr) >= t);
     unsigned int evict_age = 0;
     if( (! flush) &&
@@ -144,7 +150,7 @@ void gc_thread::gc() {
     }
 
     if( flush )
-        g_stats.flush_time.store(0);
+        g_stats.finish_flush(flush_seq);
 }
 
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 39becc4..0207541 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -582,7 +582,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         break;
     case binary_command::Flush:
     case binary_command::FlushQ:
-        g_stats.flush_time.store( cmd.exptime() );
+        g_stats.request_flush( cmd.exptime() );
         if( ! cmd.quiet() )
             r.success();
         break;
@@ -957,7 +957,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         r.end();
         break;
     case text_command::FLUSH_ALL:
-        g_stats.flush_time.store( cmd.exptime() );
+        g_stats.request_flush( cmd.exptime() );
         if( ! cmd.no_reply() )
             r.ok();
         break;
diff --git a/src/memcache/stats.hpp b/src/memcache/stats.hpp
index a50aef1..0a0e6b9 100644
--- a/src/memcache/stats.hpp
+++ b/src/memcache/stats.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <ctime>
+#include <mutex>
 
 namespace yrmcds { namespace memcache {
 
@@ -22,6 +23,22 @@ struct statistics {
     // Reset all counters.
     void reset() noexcept;
 
+    // Schedule removal of all objects at `t`.
+    void request_flush(std::time_t t) {
+        std::lock_guard<std::mutex> g(flush_lock);
+        flush_time.store(t);
+        ++ flush_seq;
+    }
+
+    // Mark the flush request of `seq` as completed.
+    //
+    // Nothing happens if another flush was requested after `seq`.
+    void finish_flush(std::uint64_t seq) {
+        std::lock_guard<std::mutex> g(flush_lock);
+        if( seq == flush_seq )
+            flush_time.store(0);
+    }
+
     /* object counters.  Updated at every GC. */
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint32_t> objects;
@@ -58,6 +75,8 @@ struct statistics {
     std::atomic<std::uint64_t> total_objects;
     alignas(CACHELINE_SIZE)
     std::atomic<std::time_t> flush_time; // abused by "flush_all"
+    std::mutex flush_lock;               // guards changes of flush_time
+    std::uint64_t flush_seq = 0;         // number of flush requests
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint64_t> curr_connections;
     std::atomic<std::uint64_t> total_connections;
-- 
2.43.0


From d05a5f73b4d0ba5a61bd6f3f0ddd5899a476406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 10/30] fix: treat any receive error as the end of that
 connection

Errors other than ECONNRESET (ETIMEDOUT, EHOSTUNREACH, ...) used to throw
from a worker or the reactor thread and terminate the whole server.
---
 cybozu/tcp.hpp           | 11 ++++-------
 src/memcache/sockets.cpp | 29 +++++++++++++----------------
 2 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index d6d099d..80ae8f0 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -174,7 +174,7 @@ public:
     enum class recv_result {
         OK,    // Received some data.
         AGAIN, // No data was available.
-        RESET, // Connection reset by peer.
+        RESET, // Connection reset by peer, or broken by another error.
         NONE,  // Peer half-closed the connection.
     };
 
@@ -194,7 +194,7 @@ public:
                 n = ::recv(fd, p, max_recvsize, 0);
             } while( n == -1 && errno == EINTR );
 
-            return (n != -1) || (errno != ECONNRESET);
+            return (n != -1) || errno == EAGAIN || errno == EWOULDBLOCK;
         });
 
         if( ! ret ) {
@@ -205,11 +205,8 @@ public:
             return recv_result::NONE;
         }
 
-        if( n == -1 ) {
-            if( errno == EAGAIN || errno == EWOULDBLOCK )
-                return recv_result::AGAIN;
-            throw_unix_error(errno, "recv");
-        }
+        if( n == -1 )
+            return recv_result::AGAIN;
 
         buf.consume(n);
         return recv_result::OK;
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 0207541..8973101 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -10,6 +10,7 @@
 #include <cstdint>
 #include <cstring>
 #include <sys/socket.h>
+#include <system_error>
 #include <sys/types.h>
 
 namespace mc = yrmcds::memcache;
@@ -988,17 +989,15 @@ bool repl_socket::on_readable(int fd) {
                 break;
             if( errno == EINTR )
                 continue;
-            if( errno == ECONNRESET ) {
-                std::string addr = "unknown address";
-                try {
-                    addr = cybozu::get_peer_ip_address(fd).str();
-                } catch (...) {
-                    // ignore errors
-                }
-                cybozu::logger::info() << "The connection to the slave (" << addr << ") has been reset.";
-                return invalidate();
+            auto ecnd = std::system_category().default_error_condition(errno);
+            std::string addr = "unknown address";
+            try {
+                addr = cybozu::get_peer_ip_address(fd).str();
+            } catch (...) {
+                // ignore errors
             }
-            cybozu::throw_unix_error(errno, "recv");
+            cybozu::logger::info() << "The connection to the slave (" << addr << ") has been reset: " << ecnd.message();
+            return invalidate();
         }
         if( n == 0 ) {
             std::string addr = "unknown address";
@@ -1042,12 +1041,10 @@ bool repl_client_socket::on_readable(int fd) {
                 break;
             if( errno == EINTR )
                 continue;
-            if( errno == ECONNRESET ) {
-                cybozu::logger::warning() << "The connection to master has been reset.";
-                m_reactor->quit();
-                return invalidate();
-            }
-            cybozu::throw_unix_error(errno, "recv");
+            auto ecnd = std::system_category().default_error_condition(errno);
+            cybozu::logger::warning() << "The connection to master has been reset: " << ecnd.message();
+            m_reactor->quit();
+            return invalidate();
         }
         if( n == 0 ) {
             cybozu::logger::info() << "The connection to master has been closed.";
-- 
2.43.0


From 75f80a1dd31333c24e37304770943b4312de8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 11/30] fix: do not terminate the server when accept fails for
 one connection

---
 cybozu/tcp.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cybozu/tcp.cpp b/cybozu/tcp.cpp
index 0071325..24d0c72 100644
--- a/cybozu/tcp.cpp
+++ b/cybozu/tcp.cpp
@@ -478,13 +478,20 @@ bool tcp_server_socket::on_readable(int fd) {
         if( s == -1 ) {
             if( errno == EINTR || errno == ECONNABORTED )
                 continue;
-            if( errno == EMFILE || errno == ENFILE ) {
-                logger::error() << "accept: Too many open files.";
+            if( errno == EMFILE || errno == ENFILE ||
+                errno == ENOBUFS || errno == ENOMEM ) {
+                logger::error() << "accept: Too many open files or no memory.";
                 m_reactor->add_readable(*this);
                 break;
             }
             if( errno == EAGAIN || errno == EWOULDBLOCK )
                 break;
+            // errors of the connection being accepted.  See accept(2).
+            if( errno == ENETDOWN || errno == EPROTO || errno == ENOPROTOOPT ||
+                errno == EHOSTDOWN || errno == ENONET || errno == EPERM ||
+                errno == EHOSTUNREACH || errno == EOPNOTSUPP ||
+                errno == ENETUNREACH || errno == ETIMEDOUT )
+                continue;
             throw_unix_error(errno, "accept");
         }
 
-- 
2.43.0


From 592a2493341e2bab09ce7d69f0feb1e0336b3c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 12/30] fix: keep every acknowledged flush_all pending until it
 is executed

A second flush_all replaced the time of the first one, so an immediate
flush followed by a delayed one was lost.
---
 src/memcache/gc.cpp    |  5 +++--
 src/memcache/stats.hpp | 25 +++++++++++++++++--------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 551d5c9..fa969aa 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -59,7 +59,8 @@ void gc_thread::gc() {
         t = g_stats.flush_time.load();
         flush_seq = g_stats.flush_seq;
     }
-    bool flush = (t != 0) && (std::time(nullptr) >= t);
+    std::time_t now = std::time(nullptr);
+    bool flush = (t != 0) && (now >= t);
     unsigned int evict_age = 0;
     if( (! flush) &&
         (g_stats.used_memory.load(std::memory_order_relaxed) >
@@ -150,7 +151,7 @@ void gc_thread::gc() {
     }
 
     if( flush )
-        g_stats.finish_flush(flush_seq);
+        g_stats.finish_flush(flush_seq, now);
 }
 
 
diff --git a/src/memcache/stats.hpp b/src/memcache/stats.hpp
index 0a0e6b9..5bd5682 100644
--- a/src/memcache/stats.hpp
+++ b/src/memcache/stats.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <ctime>
+#include <map>
 #include <mutex>
 
 namespace yrmcds { namespace memcache {
@@ -26,17 +27,24 @@ struct statistics {
     // Schedule removal of all objects at `t`.
     void request_flush(std::time_t t) {
         std::lock_guard<std::mutex> g(flush_lock);
-        flush_time.store(t);
-        ++ flush_seq;
+        flush_requests[t] = ++ flush_seq;
+        flush_time.store(flush_requests.begin()->first);
     }
 
-    // Mark the flush request of `seq` as completed.
+    // Mark flush requests up to `seq` that were due at `now` as completed.
     //
-    // Nothing happens if another flush was requested after `seq`.
-    void finish_flush(std::uint64_t seq) {
+    // Requests made after `seq` and delayed ones are left pending.
+    void finish_flush(std::uint64_t seq, std::time_t now) {
         std::lock_guard<std::mutex> g(flush_lock);
-        if( seq == flush_seq )
-            flush_time.store(0);
+        auto it = flush_requests.begin();
+        while( it != flush_requests.end() && it->first <= now ) {
+            if( it->second <= seq )
+                it = flush_requests.erase(it);
+            else
+                ++ it;
+        }
+        flush_time.store( flush_requests.empty() ?
+                          0 : flush_requests.begin()->first );
     }
 
     /* object counters.  Updated at every GC. */
@@ -75,8 +83,9 @@ struct statistics {
     std::atomic<std::uint64_t> total_objects;
     alignas(CACHELINE_SIZE)
     std::atomic<std::time_t> flush_time; // abused by "flush_all"
-    std::mutex flush_lock;               // guards changes of flush_time
+    std::mutex flush_lock;               // guards the flush requests below
     std::uint64_t flush_seq = 0;         // number of flush requests
+    std::map<std::time_t, std::uint64_t> flush_requests; // pending requests
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint64_t> curr_connections;
     std::atomic<std::uint64_t> total_connections;
-- 
2.43.0


From 98b08a18fb6bb8dc9945d813464fb25799466c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 13/30] fix: locked objects must not keep younger objects from
 eviction

---
 src/memcache/gc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index fa969aa..cd9c217 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -122,7 +122,10 @@ void gc_thread::gc() {
         m_used_memory += sizeof(cybozu::hash_key) + k.length() + sizeof(object);
         if( g_config.heap_data_limit() >= obj.size() )
             m_used_memory += obj.size();
-        m_oldest_age = std::max(m_oldest_age, obj.age());
+        // Locked objects are never evicted; they must not raise the age
+        // to start eviction.
+        if( ! obj.locked() )
+            m_oldest_age = std::max(m_oldest_age, obj.age());
         m_largest_object_size = std::max(m_largest_object_size, obj.size());
         if( ! m_new_slaves.empty() )
             repl_object(m_new_slaves, k, obj, false);
-- 
2.43.0


From c2b242d5d3606331dc926a05c195b296151a0196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 14/30] fix: keep flags and expiry time of empty objects on
 replicas

---
 src/memcache/memcache.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 810fd8b..c437e50 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -870,10 +870,14 @@ void binary_request::parse() noexcept {
     case binary_command::ReplaceQ:
     case binary_command::RaU:
     case binary_command::RaUQ:
-        if( extras_len != 8 || key_len == 0 || data_len == 0 )
+        if( extras_len != 8 || key_len == 0 )
             return; // invalid
+        // Empty objects are invalid for clients, but a master replicates
+        // them with SetQ, so flags and exptime have to be parsed anyway.
         cybozu::ntoh(p_extra, m_flags);
         m_exptime = binary_exptime(p_extra + 4);
+        if( data_len == 0 )
+            return; // invalid
         break;
     case binary_command::Delete:
     case binary_command::DeleteQ:
-- 
2.43.0


From 4a349016f6afd85e2a53e9a4602793bc627446be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 15/30] fix: do not use the replication socket after the
 connection to the master is lost

---
 src/memcache/handler.cpp | 10 +++++++---
 src/memcache/sockets.hpp | 17 +++++++++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 509c07a..922f4e7 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -162,21 +162,25 @@ bool handler::on_slave_start() {
     // Therefore we need to clear the hash table.
     clear();
 
-    m_repl_client_socket = new repl_client_socket(fd, m_hash);
+    m_repl_client_socket = new repl_client_socket(fd, m_hash, m_repl_client_socket);
     m_reactor.add_resource(std::unique_ptr<cybozu::resource>(m_repl_client_socket),
                            cybozu::reactor::EVENT_IN|cybozu::reactor::EVENT_OUT );
     return true;
 }
 
 void handler::on_slave_interval() {
+    // the connection to the master may have been lost already.
+    if( m_repl_client_socket == nullptr ) return;
+
     // ping to the master
     char c = '\0';
     m_repl_client_socket->send(&c, sizeof(c), true);
 }
 
 void handler::on_slave_end() {
-    if( m_repl_client_socket->valid() )
-        m_reactor.remove_resource(*m_repl_client_socket);
+    if( m_repl_client_socket == nullptr ) return;
+    m_reactor.remove_resource(*m_repl_client_socket);
+    m_repl_client_socket = nullptr;
 }
 
 void handler::dump_stats() {
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 5453756..7799713 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -146,13 +146,26 @@ private:
 
 class repl_client_socket: public cybozu::tcp_socket {
 public:
-    repl_client_socket(int fd, cybozu::hash_map<object>& m):
-        cybozu::tcp_socket(fd), m_hash(m), m_recvbuf(30 << 20) {}
+    // `holder` is the handler's pointer to this object.  It will be cleared
+    // when the connection is lost because this object may be destructed
+    // at any time after that.
+    repl_client_socket(int fd, cybozu::hash_map<object>& m,
+                       repl_client_socket*& holder):
+        cybozu::tcp_socket(fd), m_hash(m), m_holder(holder),
+        m_recvbuf(30 << 20) {}
 
 private:
     cybozu::hash_map<object>& m_hash;
+    repl_client_socket*& m_holder;
     cybozu::dynbuf m_recvbuf;
 
+    virtual void on_invalidate(int fd) override final {
+        // A replica never works without the connection to its master,
+        // even when the connection is lost while sending heartbeats.
+        m_holder = nullptr;
+        m_reactor->quit();
+        cybozu::tcp_socket::on_invalidate(fd);
+    }
     virtual bool on_readable(int) override final;
     virtual bool on_hangup(int) override final {
         cybozu::logger::warning() << "The connection to master has hung up.";
-- 
2.43.0


From df8c9ddbd967b279d7d0da55f884ecee5159e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 16/30] fix: do not truncate expiry times beyond 2106 in the
 replication stream

---
 src/memcache/object.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index 75e0608..a99e13e 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -101,7 +101,10 @@ public:
         return m_cas;
     }
 
+    // Expiry time for the replication protocol, which has just 32 bits for
+    // it and gives 0xffffffff a special meaning.
     std::uint32_t exptime() const noexcept {
+        if( m_exptime > 0xfffffffeLL ) return 0xfffffffeU;
         return (std::uint32_t)m_exptime;
     }
 
-- 
2.43.0


From 65d008d8a9eb07a4e4175ea2d80ed0f0b861abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:34 +0000
Subject: [PATCH 17/30] fix: do not grant more counter resources than the
 maximum when the sum overflows

---
 src/counter/object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/counter/object.hpp b/src/counter/object.hpp
index d877147..c8d9713 100644
--- a/src/counter/object.hpp
+++ b/src/counter/object.hpp
@@ -23,7 +23,8 @@ public:
     }
 
     bool acquire(std::uint32_t resources, std::uint32_t maximum) noexcept {
-        if( m_consumption + resources > maximum )
+        // be careful not to overflow
+        if( m_consumption > maximum || resources > (maximum - m_consumption) )
             return false;
 
         std::time_t t = now();
-- 
2.43.0


From f82e09fb0ebac21c32ccc950cccb017ae35bbb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:34 +0000
Subject: [PATCH 18/30] fix: releasing zero counter resources succeeds

---
 src/counter/sockets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index 675a653..b48d582 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -211,7 +211,7 @@ void counter_socket::on_acquire(const cybozu::hash_key& k, std::uint32_t resourc
 bool counter_socket::on_release(const cybozu::hash_key& k, std::uint32_t resources) {
     auto it = m_acquired_resources.find(&k);
     if( it == m_acquired_resources.end() )
-        return false;
+        return resources == 0;
     if( it->second < resources )
         return false;
     if( it->second == resources ) {
-- 
2.43.0


From 3b20461de7dc672f7dcfb42bde1861a18af259d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 19/30] fix: send pending replies before closing the connection
 on quit

---
 src/memcache/sockets.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 8973101..e3cfd4a 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -576,7 +576,8 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::QuitQ:
         unlock_all();
         if( cmd.quiet() ) {
-            invalidate_and_close();
+            // close after pending replies are sent.
+            send_close(nullptr, 0);
         } else {
             r.quit();
         }
@@ -972,7 +973,8 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::QUIT:
         unlock_all();
-        invalidate_and_close();
+        // close after pending replies are sent.
+        send_close(nullptr, 0);
         break;
     default:
         cybozu::logger::info() << "not implemented";
-- 
2.43.0


From 2d9ef26c8b89e957b0451abc3be2d3b9c1a1322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 20/30] fix: do not lose a job posted before the worker thread
 starts running

---
 cybozu/worker.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index bdbebc8..f9252af 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -76,7 +76,6 @@ public:
     void run() {
         while ( true ) {
             // wait a new job or an exit signal
-            m_running.store(false, std::memory_order_release);
             std::uint64_t i;
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
@@ -91,6 +90,10 @@ public:
 
             m_job(m_buffer);
             m_buffer.reset();
+
+            // cleared only here, not before the first job; <post_job> may be
+            // called before this thread starts running.
+            m_running.store(false, std::memory_order_release);
         }
     }
 
-- 
2.43.0


From 8136927393c1e573bb9fc7043151d854a2f30b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 21/30] fix: do not block the replica when the master stops
 reading heartbeats

---
 cybozu/tcp.hpp           | 8 ++++++++
 src/memcache/handler.cpp | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index 80ae8f0..0c1a83c 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -171,6 +171,14 @@ public:
         });
     }
 
+    // Return `true` if there are data waiting to be sent.
+    //
+    // <send> and its variants may block only if this returns `true`.
+    bool has_pending_data() const {
+        lock_guard g(m_lock);
+        return ! empty();
+    }
+
     enum class recv_result {
         OK,    // Received some data.
         AGAIN, // No data was available.
diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 922f4e7..8a61212 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -172,6 +172,9 @@ void handler::on_slave_interval() {
     // the connection to the master may have been lost already.
     if( m_repl_client_socket == nullptr ) return;
 
+    // The reactor thread must not be blocked by a master that stops reading.
+    if( m_repl_client_socket->has_pending_data() ) return;
+
     // ping to the master
     char c = '\0';
     m_repl_client_socket->send(&c, sizeof(c), true);
-- 
2.43.0


From 44cb10d4103893b48d61872354e41bbcfc9b9231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 22/30] fix: enforce max_data_size on CAS, append and prepend

The text CAS command and append/prepend in both protocols could store
values larger than max_data_size.
---
 src/memcache/sockets.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index e3cfd4a..cf55869 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -356,6 +356,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -383,6 +387,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -708,6 +716,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error();
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
@@ -730,6 +742,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error();
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
@@ -742,6 +758,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::CAS:
         std::tie(p, len) = cmd.key();
+        if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
+            r.error();
+            return;
+        }
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
             if( obj.locked_by_other() ) {
                 if( ! cmd.no_reply() )
-- 
2.43.0


From a4b50c54d1a4f401eb355d0409acab6fdfbb2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 23/30] fix: erase temporary copies of values when secure_erase
 is on

prepend's temporary buffer and the string copy made by incr/decr left
the value in released memory.
---
 src/memcache/object.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 8ce22ed..4aa7a5a 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -15,7 +15,15 @@
 namespace {
 
 std::uint64_t to_uint64(const char* p, std::size_t len) {
-    unsigned long long ull = std::stoull( std::string(p, len) );
+    // the copy must not remain in released memory.
+    struct copy {
+        std::string s;
+        ~copy() {
+            if( yrmcds::g_config.secure_erase() )
+                cybozu::clear_memory(&(s[0]), s.size());
+        }
+    } c{ std::string(p, len) };
+    unsigned long long ull = std::stoull( c.s );
     if( ull > std::numeric_limits<std::uint64_t>::max() )
         throw std::out_of_range("out of range for uint64");
     return static_cast<std::uint64_t>(ull);
@@ -132,14 +140,14 @@ void object::prepend(const char* p, std::size_t len) {
                 m_file->write(m_data.data(), m_length);
             m_data.reset();
         } else {
-            cybozu::dynbuf buf(new_size);
+            cybozu::dynbuf buf(new_size, g_config.secure_erase());
             buf.append(p, len);
             m_file->read_contents(buf);
             m_file->clear();
             m_file->write(buf.data(), new_size);
         }
     } else {
-        cybozu::dynbuf buf(new_size);
+        cybozu::dynbuf buf(new_size, g_config.secure_erase());
         buf.append(p, len);
         buf.append(m_data.data(), m_length);
         m_data.swap(buf);
-- 
2.43.0


From 7876d8c1dbb63b9aa1e7af91fb55b8b1d50561ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 24/30] fix: do not drop a replica that was silent for less
 than slave_timeout

The master compared the time of the last heartbeat, taken from the server's
once-a-second clock, with '<=': with a slave_timeout of one or two seconds a
replica that sends heartbeats regularly was dropped.
---
 src/memcache/sockets.cpp | 3 ++-
 src/memcache/sockets.hpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index cf55869..8ebc531 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -1031,7 +1031,8 @@ bool repl_socket::on_readable(int fd) {
             cybozu::logger::info() << "The connection to the slave (" << addr << ") has been closed.";
             return invalidate();
         }
-        m_last_heartbeat = g_current_time.load(relaxed);
+        // g_current_time may be behind by more than a second.
+        m_last_heartbeat = std::time(nullptr);
     }
     return true;
 }
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 7799713..897fae3 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -15,6 +15,7 @@
 #include <cybozu/util.hpp>
 #include <cybozu/worker.hpp>
 
+#include <ctime>
 #include <functional>
 #include <vector>
 
@@ -100,7 +101,7 @@ public:
         : cybozu::tcp_socket(fd, bufcnt),
           m_finder(finder),
           m_recvbuf(MAX_RECVSIZE),
-          m_last_heartbeat(g_current_time.load(std::memory_order_relaxed))
+          m_last_heartbeat(std::time(nullptr))
     {
         m_sendjob = [this](cybozu::dynbuf&) {
             with_fd([=](int fd) -> bool {
@@ -111,7 +112,7 @@ public:
 
     bool timed_out() const {
         std::time_t now = g_current_time.load(std::memory_order_relaxed);
-        return m_last_heartbeat + g_config.slave_timeout() <= now;
+        return m_last_heartbeat + g_config.slave_timeout() < now;
     }
 
     std::string peer_ip() {
-- 
2.43.0


From 967a725cd0c4f353ec5ffd67c2b2f5cbac54691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 25/30] fix: reject malformed and out-of-range values in the
 configuration file

Trailing garbage after a number ("1MB", "1.5") was silently dropped, a
repl_buffer_size the master cannot honour terminated it once a replica
connected, and a configuration file that cannot be read was ignored.
---
 cybozu/config_parser.cpp |  2 ++
 cybozu/config_parser.hpp | 18 ++++++++++++++++--
 src/config.cpp           |  8 +++++++-
 src/constants.hpp        |  1 +
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/cybozu/config_parser.cpp b/cybozu/config_parser.cpp
index e2088ee..dcc35da 100644
--- a/cybozu/config_parser.cpp
+++ b/cybozu/config_parser.cpp
@@ -51,6 +51,8 @@ void config_parser::load(const std::string& path) {
 
         set(key, value);
     }
+    if( is.bad() )
+        throw std::runtime_error("failed to read " + path);
 }
 
 } // namespace cybozu
diff --git a/cybozu/config_parser.hpp b/cybozu/config_parser.hpp
index 30596cf..88c3bcd 100644
--- a/cybozu/config_parser.hpp
+++ b/cybozu/config_parser.hpp
@@ -4,6 +4,7 @@
 #ifndef CYBOZU_CONFIG_PARSER_HPP
 #define CYBOZU_CONFIG_PARSER_HPP
 
+#include <cstddef>
 #include <unordered_map>
 #include <string>
 #include <stdexcept>
@@ -96,7 +97,12 @@ public:
     // @return An integer converted from the associated value.
     int get_as_int(const std::string& key) const {
         try {
-            return std::stoi(get(key));
+            const std::string& s = get(key);
+            std::size_t n;
+            int i = std::stoi(s, &n);
+            if( n != s.size() )
+                throw illegal_value(key);
+            return i;
         } catch(const std::invalid_argument& e) {
             throw illegal_value(key);
         } catch(const std::out_of_range& e) {
@@ -113,7 +119,15 @@ public:
     // @return An uint64_t integer converted from the associated value.
     std::uint64_t get_as_uint64(const std::string& key) const {
         try {
-            return std::stoull(get(key));
+            const std::string& s = get(key);
+            // std::stoull accepts negative numbers.
+            if( s.find('-') != std::string::npos )
+                throw illegal_value(key);
+            std::size_t n;
+            std::uint64_t i = std::stoull(s, &n);
+            if( n != s.size() )
+                throw illegal_value(key);
+            return i;
         } catch(const std::invalid_argument& e) {
             throw illegal_value(key);
         } catch(const std::out_of_range& e) {
diff --git a/src/config.cpp b/src/config.cpp
index 2b4c12f..59904f1 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -61,7 +61,10 @@ inline std::size_t parse_unit(std::string& s, const char* cmd) {
     }
     if( base != 1 )
         s.pop_back();
-    int n = std::stoi( s );
+    std::size_t parsed;
+    int n = std::stoi( s, &parsed );
+    if( parsed != s.size() )
+        throw yrmcds::config::bad_config(cmd + std::string(" is not a number"));
     if( n < 1 )
         throw yrmcds::config::bad_config(cmd + std::string(" must be > 0"));
     return base * static_cast<std::size_t>(n);
@@ -204,6 +207,9 @@ void config::load(const std::string& path) {
         int bufs = cp.get_as_int(REPL_BUFSIZE);
         if( bufs < 1 )
             throw bad_config("repl_buffer_size must be > 0");
+        if( bufs > MAX_REPL_BUFSIZE )
+            throw bad_config("repl_buffer_size must be <= " +
+                             std::to_string(MAX_REPL_BUFSIZE));
         m_repl_bufsize = bufs;
     }
 
diff --git a/src/constants.hpp b/src/constants.hpp
index 9253d74..2640715 100644
--- a/src/constants.hpp
+++ b/src/constants.hpp
@@ -30,6 +30,7 @@ const int           FLUSH_AGE           = 10;
 const std::size_t   MAX_RECVSIZE        = 2 << 20; // 2 MiB
 const std::size_t   WORKER_BUFSIZE      = 5 << 20; // 5 MiB
 const int           MAX_WORKERS         = 64;
+const int           MAX_REPL_BUFSIZE    = 65536; // MAX_BUFCNT of cybozu::tcp_socket
 const std::size_t   MAX_REQUEST_LENGTH  = 30 << 20; // 30 MiB
 const int           MAX_SLAVES          = 5;
 const int           MAX_CONSECUTIVE_GCS = 3;
-- 
2.43.0


From a02af5f72e5e7b2fe50a435a23fb058059d58ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 26/30] fix: the documented name of counter.stat_interval

---
 docs/counter.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/counter.md b/docs/counter.md
index 37e1bf9..cc2f5a0 100644
--- a/docs/counter.md
+++ b/docs/counter.md
@@ -328,5 +328,5 @@ counter.buckets = 1000000
 
 # The interval of measuring the maximum number of resource consumption
 # in seconds. (default: 86400)
-counter.stats_interval = 86400
+counter.stat_interval = 86400
 ```
-- 
2.43.0


From afe6475d540217179c1c26fa39cd9180d9e32e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 27/30] fix: a binary Flush with a delay of 0 flushes
 immediately

Extras holding 0 were passed on as time 0, which means "no flush"; the
command was acknowledged without any effect.
---
 src/memcache/memcache.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index c437e50..0167633 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -905,11 +905,11 @@ void binary_request::parse() noexcept {
             return; // invalid
         if( key_len != 0 || data_len > 0 )
             return; // invalid
-        if( extras_len == 4 ) { // yrmcds extension
+        m_exptime = 0;
+        if( extras_len == 4 ) // yrmcds extension
             m_exptime = binary_exptime(p_extra);
-        } else {
+        if( m_exptime == 0 )  // immediately
             m_exptime = g_current_time.load(relaxed);
-        }
         break;
     case binary_command::Append:
     case binary_command::AppendQ:
-- 
2.43.0


From b8654dd19214bdc80658562972c6860bde1f19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:08 +0000
Subject: [PATCH 28/30] fix: keep serving when VIP cannot be checked because
 descriptors ran out

---
 src/memcache/gc.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index cd9c217..d566ce5 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -7,11 +7,27 @@
 
 #include <algorithm>
 #include <cstdlib>
+#include <system_error>
+
+namespace {
+
+// Listing addresses fails while file descriptors run out.  The process
+// must not end for it; VIP will be checked again by the next GC.
+bool lost_vip() {
+    try {
+        return ! cybozu::has_ip_address(yrmcds::g_config.vip());
+    } catch( const std::system_error& e ) {
+        cybozu::logger::warning() << "Could not check VIP: " << e.what();
+        return false;
+    }
+}
+
+} // anonymous namespace
 
 namespace yrmcds { namespace memcache {
 
 void gc_thread::run() {
-    if( ! cybozu::has_ip_address(g_config.vip()) ) {
+    if( lost_vip() ) {
         cybozu::logger::error() << "VIP has been lost.  Exiting quickly...";
         std::quick_exit(2);
     }
-- 
2.43.0


From d68e037f1b82243af65d7cdf0974a27fab1609e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:19 +0000
Subject: [PATCH 29/30] fix: do not send updates to a slave before every thread
 knows it

While a slave was joining, a thread that did not know it yet did not tell
it about removals of objects that other threads had already sent to it.
The slave then kept objects that the master did not have.  Send updates
only from the start of the initial replication.
---
 docs/design.md               |  9 +++++----
 src/memcache/handler.cpp     |  2 ++
 src/memcache/replication.cpp | 18 ++++++++++++------
 src/memcache/sockets.hpp     | 11 +++++++++++
 4 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/docs/design.md b/docs/design.md
index cd65e2f..2dd08ec 100644
--- a/docs/design.md
+++ b/docs/design.md
@@ -116,9 +116,7 @@ is high.
 
 A GC thread is started by the reactor thread only when there is no
 running GC thread.  The reactor thread passes the current list of slaves
-to the GC thread in order to replicate object removals.  If a slave
-is added while a GC thread is running, that slave may fail to remove
-some objects, which is *not* a big problem.
+to the GC thread in order to replicate object removals.
 
 Replication
 -----------
@@ -167,7 +165,10 @@ implemented as:
 3. The reactor thread adds the new replication socket to the confirmed
    list.
 4. At the next GC, the reactor thread requests initial replication for
-   sockets stored in the confirmed list.
+   sockets stored in the confirmed list.  
+   Only from this point on, updates and removals are sent to the slave.
+   Earlier, a thread having an old copy would fail to send removals of
+   objects that another thread has already sent.
 
 Sending data
 ------------
diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 8a61212..2e3cfaa 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -128,6 +128,8 @@ void handler::on_master_interval() {
     }
 
     if( gc_ready(g_current_time.load(relaxed)) ) {
+        for( repl_socket* slave: m_new_slaves )
+            slave->set_ready();
         m_gc_thread = std::unique_ptr<gc_thread>(
             new gc_thread(m_hash, m_slaves, m_new_slaves));
         m_new_slaves.clear();
diff --git a/src/memcache/replication.cpp b/src/memcache/replication.cpp
index 2ec94d0..a387dcc 100644
--- a/src/memcache/replication.cpp
+++ b/src/memcache/replication.cpp
@@ -50,8 +50,10 @@ void repl_object(const std::vector<repl_socket*>& slaves,
         {key.data(), key.length()},
         {data.data(), data.size()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 4, flush);
+    for( repl_socket* s: slaves ) {
+        if( s->ready() )
+            s->sendv(iov, 4, flush);
+    }
 }
 
 void repl_touch(const std::vector<repl_socket*>& slaves,
@@ -65,8 +67,10 @@ void repl_touch(const std::vector<repl_socket*>& slaves,
         {extras, sizeof(extras)},
         {key.data(), key.length()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 3, true);
+    for( repl_socket* s: slaves ) {
+        if( s->ready() )
+            s->sendv(iov, 3, true);
+    }
 }
 
 void repl_delete(const std::vector<repl_socket*>& slaves,
@@ -77,8 +81,10 @@ void repl_delete(const std::vector<repl_socket*>& slaves,
         {header, sizeof(header)},
         {key.data(), key.length()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 2, false);
+    for( repl_socket* s: slaves ) {
+        if( s->ready() )
+            s->sendv(iov, 2, false);
+    }
 }
 
 std::size_t repl_recv(const char* p, std::size_t len,
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 897fae3..cfc9b52 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -115,6 +115,16 @@ public:
         return m_last_heartbeat + g_config.slave_timeout() < now;
     }
 
+    // Nothing must be sent to a slave before its initial replication starts.
+    // Until then, some threads do not know the slave and would fail to send
+    // removals of objects that others have already sent.
+    bool ready() const noexcept {
+        return m_ready.load(std::memory_order_acquire);
+    }
+    void set_ready() noexcept {
+        m_ready.store(true, std::memory_order_release);
+    }
+
     std::string peer_ip() {
         std::string addr = "unknown address";
         try {
@@ -139,6 +149,7 @@ private:
     std::vector<char> m_recvbuf;
     cybozu::worker::job m_sendjob;
     std::time_t m_last_heartbeat;
+    std::atomic<bool> m_ready{false};
 
     virtual bool on_readable(int) override final;
     virtual bool on_writable(int) override final;
-- 
2.43.0


From b6b64dde11541869bf80356e9e3cf1633f4628f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:05 +0000
Subject: [PATCH 30/30] fix: do not wait for a bucket when the reactor releases
 a gone connection

The destructors of client connections waited for hash buckets in the
reactor thread to release locks or counter resources.  If a worker was
sending a reply under the lock of such a bucket to a client that read
slowly, it was waiting for the reactor thread, and the server hung up.
Leave the connection for the next time instead.
---
 cybozu/hash_map.hpp      | 17 +++++++++++++++++
 cybozu/reactor.hpp       | 15 +++++++++++++++
 src/counter/sockets.cpp  | 16 ++++++++++++++++
 src/counter/sockets.hpp  |  1 +
 src/memcache/sockets.cpp | 15 +++++++++++++++
 src/memcache/sockets.hpp |  1 +
 6 files changed, 65 insertions(+)

diff --git a/cybozu/hash_map.hpp b/cybozu/hash_map.hpp
index c51a763..202a6d3 100644
--- a/cybozu/hash_map.hpp
+++ b/cybozu/hash_map.hpp
@@ -177,6 +177,16 @@ public:
             return apply_nolock(key, h, c);
         }
 
+        // Non-blocking <apply> for existing objects.
+        //
+        // @return `false` if this bucket is locked by another thread.
+        bool try_apply(const hash_key& key, const handler& h) {
+            std::unique_lock<std::mutex> g(m_lock, std::try_to_lock);
+            if( ! g ) return false;
+            apply_nolock(key, h, nullptr);
+            return true;
+        }
+
         // Apply `pred` for each object.
         // @pred     Predicate function
         void foreach(const std::function<void(const hash_key&, T&)>& pred) {
@@ -307,6 +317,13 @@ public:
         return get_bucket(key).apply(key, h, c);
     }
 
+    // Non-blocking <apply> for existing objects.
+    //
+    // @return `false` if the bucket is locked by another thread.
+    bool try_apply(const hash_key& key, const handler& h) {
+        return get_bucket(key).try_apply(key, h);
+    }
+
     // Apply `pred` for each object.
     // @pred     Predicate function
     void foreach(const std::function<void(const hash_key&, T&)>& pred) {
diff --git a/cybozu/reactor.hpp b/cybozu/reactor.hpp
index da353e3..15177fe 100644
--- a/cybozu/reactor.hpp
+++ b/cybozu/reactor.hpp
@@ -129,6 +129,16 @@ public:
         return invalidate();
     }
 
+    // Called before this resource is destructed by <reactor::gc>.
+    //
+    // This is called by the reactor thread, and must not wait for other
+    // threads because they may be waiting for the reactor thread.
+    //
+    // @return `false` if this resource cannot be destructed yet.
+    virtual bool on_gc() {
+        return true;
+    }
+
 protected:
     reactor* m_reactor = nullptr;
 
@@ -326,9 +336,14 @@ public:
     // Destruct garbage resources fixed by <fix_garbage>.
     //
     // Destruct garbage resources fixed by <fix_garbage>.
+    // Resources that cannot be destructed yet are left for the next time.
     // Only the reactor thread can use this.
     void gc() {
         logger::debug() << "reactor: collected garbage resources.";
+        for( auto& res: m_garbage_copy ) {
+            if( ! res->on_gc() )
+                m_garbage.emplace_back( std::move(res) );
+        }
         m_garbage_copy.clear();
     }
 
diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index b48d582..39b26a4 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -80,6 +80,22 @@ counter_socket::~counter_socket() {
     release_all();
 }
 
+bool counter_socket::on_gc() {
+    // A thread having locked a bucket may be waiting for the reactor thread
+    // to send pending data.
+    while( ! m_acquired_resources.empty() ) {
+        auto it = m_acquired_resources.begin();
+        std::uint32_t count = it->second;
+        if( ! m_hash.try_apply(*it->first,
+                               [count](const cybozu::hash_key&, object& obj) -> bool {
+                                   return obj.release(count);
+                               }) )
+            return false;
+        m_acquired_resources.erase(it);
+    }
+    return true;
+}
+
 bool counter_socket::on_readable(int fd) {
     if( m_busy.load(std::memory_order_acquire) ) {
         m_reactor->add_readable(*this);
diff --git a/src/counter/sockets.hpp b/src/counter/sockets.hpp
index 116e2fd..1f82acf 100644
--- a/src/counter/sockets.hpp
+++ b/src/counter/sockets.hpp
@@ -49,6 +49,7 @@ private:
 
     bool on_readable(int) override;
     bool on_writable(int) override;
+    bool on_gc() override;
 
     void cmd_get(const counter::request& cmd, counter::response& r);
     void cmd_acquire(const counter::request& cmd, counter::response& r);
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 8ebc531..3e7416a 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -125,6 +125,21 @@ memcache_socket::~memcache_socket() {
     }
 }
 
+bool memcache_socket::on_gc() {
+    // A thread having locked a bucket may be waiting for the reactor thread
+    // to send pending data.
+    while( ! m_locks.empty() ) {
+        if( ! m_hash.try_apply(m_locks.back().get(),
+                               [](const cybozu::hash_key&, object& obj) -> bool {
+                                   obj.unlock(true);
+                                   return true;
+                               }) )
+            return false;
+        m_locks.pop_back();
+    }
+    return true;
+}
+
 bool memcache_socket::on_readable(int) {
     if( m_busy.load(std::memory_order_acquire) ) {
         m_reactor->add_readable(*this);
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index cfc9b52..3fec183 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -89,6 +89,7 @@ private:
     }
     virtual bool on_readable(int) override final;
     virtual bool on_writable(int) override final;
+    virtual bool on_gc() override final;
 };
 
 
-- 
2.43.0

