From 97fe7f75930a08fa043fed21f3a8722c559d9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:45 +0000
Subject: [PATCH 01/51] fix: rw_mutex::read_lock(sec) with a tiny timeout
 returned the inverted result

For sec<1e-9 the result of pthread_rwlock_tryrdlock (0 on success) was
returned as the bool itself: a successful try reported false and leaked the
shared lock, a failed one reported true without holding it.
---
 src/concurrent/rwmutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/rwmutex.cpp b/src/concurrent/rwmutex.cpp
index a5e610e..3815b46 100644
--- a/src/concurrent/rwmutex.cpp
+++ b/src/concurrent/rwmutex.cpp
@@ -96,7 +96,7 @@ bool rw_mutex::impl::read_lock(double sec)
   if (!valid) return false;
 
   if (sec<1e-9)
-    return pthread_rwlock_tryrdlock(&lk);
+    return pthread_rwlock_tryrdlock(&lk)==0;
 
   timespec end=to_timespec(get_clock_time()+sec);
   return pthread_rwlock_timedrdlock(&lk, &end)==0;
-- 
2.43.0


From e1d2b5bb410cb633f30c5a8f3732d96e78a4e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:52 +0000
Subject: [PATCH 02/51] fix: qsem::wait(q) took one unit instead of q

wait(q) waited for q units to be available but subtracted only one, so
units were created out of nothing whenever q>1.
---
 src/concurrent/qsem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/qsem.h b/src/concurrent/qsem.h
index 0191c90..8a4f2b8 100644
--- a/src/concurrent/qsem.h
+++ b/src/concurrent/qsem.h
@@ -56,7 +56,7 @@ public:
       if (lock) {
         while (quantity < q)
           cond.wait(m);
-        quantity--;
+        quantity -= q;
         return true;
       }
     }
-- 
2.43.0


From e0e58894a55064236c9b224812a5f82613f6d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:26 +0000
Subject: [PATCH 03/51] fix: stream_socket carried buffered bytes over to the
 next connection

---
 src/network/socket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 5c2a51f..ff57aa7 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -173,6 +173,10 @@ bool stream_socket::open()
     sock=-1;
     return false;
   }
+
+  // a new connection must not see bytes of the previous one
+  rdbuf_p=rdbuf_end=0;
+  wrbuf_size=0;
   return true;
 }
 
-- 
2.43.0


From 21383b45f9693fea22a85aa61abc513c64f6967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 04/51] fix: a socketstream that was never connected
 dereferenced a null pointer

---
 src/network/iostream.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/network/iostream.h b/src/network/iostream.h
index bbc9922..71d4769 100644
--- a/src/network/iostream.h
+++ b/src/network/iostream.h
@@ -86,25 +86,25 @@ public:
   }
 
   bool is_connected() const{
-    if (!sock->get()) return false;
+    if (!sock || !sock->get()) return false;
     return sock->get()->is_connected();
   }
 
   stream_socket *socket() const{
-    return sock->get();
+    return sock ? sock->get() : NULL;
   }
 
   // virtual protected members
 
   std::streamsize xsputn(const char_type *s, std::streamsize n){
-    if (!sock->get()) return 0;
+    if (!sock || !sock->get()) return 0;
     int res=sock->get()->write(s, sizeof(char_type)*n);
     if (res<0) return 0;
     return res;
   }
 
   int overflow(int c){
-    if (!sock->get()) return T::eof();
+    if (!sock || !sock->get()) return T::eof();
     char d=static_cast<char>(c);
     int res=sock->get()->write(&d, sizeof(char_type));
     if (res<0) return T::eof();
@@ -112,6 +112,7 @@ public:
   }
 
   int sync(){
+    if (!sock || !sock->get()) return -1;
     int res=sock->get()->flush();
     return res<0?0:-1;
   }
@@ -124,7 +125,7 @@ public:
 
   int underflow(){
     if (buf==T::eof()){
-      if (!sock->get()) return T::eof();
+      if (!sock || !sock->get()) return T::eof();
       buf=sock->get()->getc();
     }
     return buf;
-- 
2.43.0


From 58f66138049cebae16587e2f6c8da21ab960daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:53 +0000
Subject: [PATCH 05/51] fix: socketstream carried a peeked byte over to the
 next connection

---
 src/network/iostream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/iostream.h b/src/network/iostream.h
index 71d4769..0df12c0 100644
--- a/src/network/iostream.h
+++ b/src/network/iostream.h
@@ -60,6 +60,7 @@ public:
     this->sock=
       pfi::lang::shared_ptr<socket_holder>
       (new socket_holder_impl<pfi::lang::shared_ptr<stream_socket> >(sock));
+    buf=T::eof();
     return sock->connect(host, port);
   }
 
@@ -83,6 +84,7 @@ public:
   template <class PSOCK>
   void setsock(PSOCK sock){
     this->sock=pfi::lang::shared_ptr<socket_holder>(new socket_holder_impl<PSOCK>(sock));
+    buf=T::eof();
   }
 
   bool is_connected() const{
-- 
2.43.0


From cc289080772025b79cd549ddd1429fd03633693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:05 +0000
Subject: [PATCH 06/51] fix: rpc client waited forever when the called function
 threw rpc_error, other exceptions killed the server

---
 src/network/rpc/base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 69c8a0f..bc2422b 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -223,7 +223,10 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
       try{
         funcs[name]->invoke(ia,oa);
       }
-      catch(const rpc_error &){
+      catch(const std::exception &){
+        // No reply has been sent: close the connection so that
+        // the client does not wait for it forever.
+        break;
       }
     }
   }
-- 
2.43.0


From 2c2d2206a3aced814fa0b66dcbd75f51f65ce5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:05 +0000
Subject: [PATCH 07/51] fix: rpc server executed a call whose request ended
 before the version

---
 src/network/rpc/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index bc2422b..db22ce7 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -213,7 +213,9 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
       }
 
       int req_ver;
-      if (ia >> req_ver && req_ver!=version){
+      if (!(ia >> req_ver))
+        break;
+      if (req_ver!=version){
         string msg(string("VersionMismatch ")+lexical_cast<string>(version)+" "+lexical_cast<string>(req_ver));
         oa<<msg;
         oa.flush();
-- 
2.43.0


From b9b8b394326be5a727a3f0ed6995453a7fec0830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:05 +0000
Subject: [PATCH 08/51] fix: rpc_server::stop threw when its termination
 request met a closing socket

---
 src/network/rpc/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index db22ce7..546230e 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -128,7 +128,7 @@ void rpc_server::stop()
       //       this RPC call will throw `cannot_get_connection` exception.
       try {
         request_termination();
-      } catch (const cannot_get_connection&) {}
+      } catch (const rpc_error&) {}
     }
   }
 }
-- 
2.43.0


From bed844397ad245190d8f581af9d7fff0f4c24c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:05 +0000
Subject: [PATCH 09/51] fix: rpc_server woke only one of several threads in
 wait_until_stopped

---
 src/network/rpc/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 546230e..e3d27cc 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -259,7 +259,7 @@ void rpc_server::notify_if_this_is_the_last_running_threads()
     }
     state = server_state::STOPPED;
   }
-  stop_condition.notify_one();
+  stop_condition.notify_all();
 }
 
 rpc_client::rpc_client(const string &host, uint16_t port, int version)
-- 
2.43.0


From 7926b4d5c89e28c72d5808298a234ad44b56635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:12 +0000
Subject: [PATCH 10/51] fix: rpc_server whose start failed or that has no
 threads never reached the stopped state

---
 src/network/rpc/base.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index e3d27cc..974c9d1 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -96,6 +96,7 @@ bool rpc_server::start(uint16_t port, int nthreads)
 
   port_num = socket->port();
 
+  bool started = true;
   {
     std::lock_guard<std::mutex> lock(state_mutex);
     // NOTE: state should be set as `running` before starting threads
@@ -104,11 +105,17 @@ bool rpc_server::start(uint16_t port, int nthreads)
     threads = vector<pfi::lang::shared_ptr<thread>>(nthreads);
     for (int i=0; i<nthreads; i++){
       threads[i]=pfi::lang::shared_ptr<thread>(new thread(bind(&rpc_server::process, this, socket)));
-      if (!threads[i]->start()) return false;
+      if (!threads[i]->start()) {
+        threads.resize(i);
+        started = false;
+        break;
+      }
       ++num_running_threads;
     }
   }
-  return true;
+  if (!started)
+    stop();
+  return started;
 }
 
 void rpc_server::stop()
@@ -131,6 +138,11 @@ void rpc_server::stop()
       } catch (const rpc_error&) {}
     }
   }
+  if (num_running_threads == 0) {
+    // there is no thread that would do this when it ends
+    state = server_state::STOPPED;
+    stop_condition.notify_all();
+  }
 }
 
 void rpc_server::wait_until_stopped()
-- 
2.43.0


From 3cd71811ec772a88cd599c503e0530388a852c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:41 +0000
Subject: [PATCH 11/51] fix: rpc_server worker of an earlier start used the
 server after its destruction

---
 src/network/rpc/base.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 974c9d1..948c4f1 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -99,6 +99,11 @@ bool rpc_server::start(uint16_t port, int nthreads)
   bool started = true;
   {
     std::lock_guard<std::mutex> lock(state_mutex);
+    if (is_stopped_unsafe()) {
+      // the last thing the threads of an earlier start do is to use this server
+      for (size_t i = 0; i < threads.size(); ++i)
+        threads[i]->join();
+    }
     // NOTE: state should be set as `running` before starting threads
     //       because each thread runs while the state is `running`.
     state = server_state::RUNNING;
-- 
2.43.0


From 2c6dde50ece47b914411c18136f178e43ff9d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:39 +0000
Subject: [PATCH 12/51] fix: deserializing truncated data allocated and looped
 over the whole announced length

---
 src/data/serialization/base.h          | 13 +++++++++++++
 src/data/serialization/deque.h         |  2 +-
 src/data/serialization/iostream.h      |  4 +++-
 src/data/serialization/list.h          |  2 +-
 src/data/serialization/map.h           |  4 +++-
 src/data/serialization/set.h           |  4 +++-
 src/data/serialization/string.h        | 14 +++++++++++---
 src/data/serialization/unordered_map.h |  4 +++-
 src/data/serialization/unordered_set.h |  4 +++-
 src/data/serialization/vector.h        |  3 +--
 10 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/data/serialization/base.h b/src/data/serialization/base.h
index 64aac74..4097b8c 100644
--- a/src/data/serialization/base.h
+++ b/src/data/serialization/base.h
@@ -99,6 +99,19 @@ private:
   std::istream& is;
 };
 
+// whether more elements of a container can be read:
+// an archive that has failed gives none, whatever length it announced
+template <class Archive>
+inline bool readable(const Archive&)
+{
+  return true;
+}
+
+inline bool readable(const binary_iarchive& ar)
+{
+  return ar.bool_test();
+}
+
 template <class T>
 binary_iarchive& operator>>(binary_iarchive& ar, T& v)
 {
diff --git a/src/data/serialization/deque.h b/src/data/serialization/deque.h
index 7404fdb..3ca1256 100644
--- a/src/data/serialization/deque.h
+++ b/src/data/serialization/deque.h
@@ -52,7 +52,7 @@ void serialize(Archive &ar, std::deque<T, Allocator> &v)
     for (size_t i = 0; i < v.size(); ++i) {
       ar & v[i];
     }
-    for (size_t i = v.size(); i < size; ++i) {
+    for (size_t i = v.size(); i < size && readable(ar); ++i) {
       T t = T();
       ar & t;
       v.push_back(t);
diff --git a/src/data/serialization/iostream.h b/src/data/serialization/iostream.h
index 093ec7c..723ebd2 100644
--- a/src/data/serialization/iostream.h
+++ b/src/data/serialization/iostream.h
@@ -103,9 +103,11 @@ void serialize(Archive &ar, std::iostream &ios)
     char c[2]={};
     for (;;){
       ar & c[0];
+      if (!readable(ar))
+        break;
       if (static_cast<unsigned char>(c[0])==0xff){
         ar & c[1];
-        if (c[1]==0x00)
+        if (!readable(ar) || c[1]==0x00)
           break;
         *p=0xff;
       }
diff --git a/src/data/serialization/list.h b/src/data/serialization/list.h
index 7f546e2..ed7c1fe 100644
--- a/src/data/serialization/list.h
+++ b/src/data/serialization/list.h
@@ -53,7 +53,7 @@ void serialize(Archive &ar, std::list<T, Allocator> &v)
     for (iter_t it = v.begin(); it != v.end(); ++it) {
       ar & *it;
     }
-    for (size_t i = v.size(); i < size; ++i) {
+    for (size_t i = v.size(); i < size && readable(ar); ++i) {
       T t = T();
       ar & t;
       v.push_back(t);
diff --git a/src/data/serialization/map.h b/src/data/serialization/map.h
index 71ae62a..26adf25 100644
--- a/src/data/serialization/map.h
+++ b/src/data/serialization/map.h
@@ -50,9 +50,11 @@ void serialize(Archive &ar, std::map<K, V, Compare, Allocator> &m)
 
   if (ar.is_read){
     m.clear();
-    while(size--){
+    while(size-- && readable(ar)){
       std::pair<K,V> v;
       ar & v;
+      if (!readable(ar))
+        break;
       m.insert(v);
     }
   }
diff --git a/src/data/serialization/set.h b/src/data/serialization/set.h
index 6694c6c..dda82da 100644
--- a/src/data/serialization/set.h
+++ b/src/data/serialization/set.h
@@ -48,9 +48,11 @@ void serialize(Archive &ar, std::set<T, Compare, Allocator> &s)
 
   if (ar.is_read){
     s.clear();
-    while(size--){
+    while(size-- && readable(ar)){
       T v;
       ar & v;
+      if (!readable(ar))
+        break;
       s.insert(v);
     }
   }
diff --git a/src/data/serialization/string.h b/src/data/serialization/string.h
index 492feba..2531f4d 100644
--- a/src/data/serialization/string.h
+++ b/src/data/serialization/string.h
@@ -48,9 +48,17 @@ void serialize(Archive &ar, std::basic_string<CharType, Traits, Allocator> &s)
   uint32_t length=static_cast<uint32_t>(s.length());
   ar & length;
 
-  s.resize(length);
-  for (uint32_t i=0;i<length;i++)
-    ar & s[i];
+  if (ar.is_read) {
+    s.clear();
+    for (uint32_t i=0;i<length && readable(ar);i++) {
+      CharType c=CharType();
+      ar & c;
+      s.push_back(c);
+    }
+  } else {
+    for (uint32_t i=0;i<length;i++)
+      ar & s[i];
+  }
 }
 
 class string_type : public type_rep {
diff --git a/src/data/serialization/unordered_map.h b/src/data/serialization/unordered_map.h
index a3750f2..aa39b4e 100644
--- a/src/data/serialization/unordered_map.h
+++ b/src/data/serialization/unordered_map.h
@@ -49,9 +49,11 @@ void serialize(Archive &ar, unordered_map<K, V, H, P, A> &m)
 
   if (ar.is_read){
     m.clear();
-    while(size--){
+    while(size-- && readable(ar)){
       std::pair<K,V> v;
       ar & v;
+      if (!readable(ar))
+        break;
       m.insert(v);
     }
   }
diff --git a/src/data/serialization/unordered_set.h b/src/data/serialization/unordered_set.h
index 8820521..d064dd9 100644
--- a/src/data/serialization/unordered_set.h
+++ b/src/data/serialization/unordered_set.h
@@ -49,9 +49,11 @@ void serialize(Archive &ar, unordered_set<T, H, P, A> &s)
 
   if (ar.is_read){
     s.clear();
-    while(size--){
+    while(size-- && readable(ar)){
       T v;
       ar & v;
+      if (!readable(ar))
+        break;
       s.insert(v);
     }
   }
diff --git a/src/data/serialization/vector.h b/src/data/serialization/vector.h
index ed71c70..d09ebc2 100644
--- a/src/data/serialization/vector.h
+++ b/src/data/serialization/vector.h
@@ -48,12 +48,11 @@ void serialize(Archive &ar, std::vector<T, Allocator> &v)
   ar & size;
 
   if (ar.is_read) {
-    v.reserve(size);
     v.resize(std::min<size_t>(size, v.size()));
     for (size_t i = 0; i < v.size(); ++i) {
       ar & v[i];
     }
-    for (size_t i = v.size(); i < size; ++i) {
+    for (size_t i = v.size(); i < size && readable(ar); ++i) {
       T t = T();
       ar & t;
       v.push_back(t);
-- 
2.43.0


From d8cd2bcbd37ea7a5846c35797574d00463e88132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:00 +0000
Subject: [PATCH 13/51] fix: cached_dns_resolver never expired entries, broke
 on concurrent misses, unknown deletions and size 0

---
 src/network/dns.cpp | 49 +++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index adcaaa1..2895037 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -110,8 +110,15 @@ private:
   int max_size;
   int expire_second;
 
-  std::map<std::pair<std::string, uint16_t>,
-    std::pair<std::vector<ipv4_address>, time_t> > cache;
+  struct entry{
+    std::vector<ipv4_address> ips;
+    time_t resolved;
+    time_t accessed;
+  };
+
+  void erase(const std::pair<std::string, uint16_t> &key);
+
+  std::map<std::pair<std::string, uint16_t>, entry> cache;
 
   std::multiset<std::pair<time_t, std::pair<std::string, uint16_t> > > access_time;
 
@@ -165,13 +172,19 @@ void cached_dns_resolver::impl::delete_cache(const string &host, uint16_t port)
 {
   pfi::concurrent::scoped_lock lock(m);
   if (lock) {
-    pair<string,uint16_t> key(host,port);
-    time_t del_time=cache[key].second;
-    access_time.erase(make_pair(del_time,key));
-    cache.erase(key);
+    erase(make_pair(host,port));
   }
 }
 
+// m must be locked
+void cached_dns_resolver::impl::erase(const pair<string,uint16_t> &key)
+{
+  if (cache.count(key) == 0)
+    return;
+  access_time.erase(make_pair(cache[key].accessed, key));
+  cache.erase(key);
+}
+
 vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint16_t port)
 {
   // DNS resolver using LRU
@@ -186,19 +199,17 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
     if (lock) {
       // hit cache
       if (cache.count(key) != 0) {
-        // last access time
-        access_time.erase(make_pair(cache[key].second, key));
-        access_time.insert(make_pair(cur, key));
-        cache[key].second = cur;
-
         // is not expire
-        if (cur-cache[key].second < expire_second) {
-          return cache[key].first;
+        if (cur-cache[key].resolved < expire_second) {
+          // last access time
+          access_time.erase(make_pair(cache[key].accessed, key));
+          access_time.insert(make_pair(cur, key));
+          cache[key].accessed = cur;
+          return cache[key].ips;
         }
 
         // expire, so delete cache
-        access_time.erase(make_pair(cur, key));
-        cache.erase(key);
+        erase(key);
       }
     }
   }
@@ -209,7 +220,10 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
 
   {
     pfi::concurrent::scoped_lock lock(m);
-    if (lock) {
+    if (lock && max_size > 0) {
+      // another thread may have registered it meanwhile
+      erase(key);
+
       // is cache full?
       while ((int)cache.size() >= max_size) {
         assert(access_time.size() == cache.size());
@@ -221,7 +235,8 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
 
       // register to cache
       access_time.insert(make_pair(cur, key));
-      cache[key] = make_pair(ret, cur);
+      entry e = { ret, cur, cur };
+      cache[key] = e;
     }
   }
 
-- 
2.43.0


From 1d275aaf391ec70d4785607ea36c95f14ec98f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 14/51] fix: HTTP bodies: 0xff ended a chunked body, an empty
 body read past its end, bad chunk sizes corrupted memory

---
 src/network/http/base.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index f8304de..fbd24f0 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -249,7 +249,7 @@ public:
       fill();
     if (empty())
       return T::eof();
-    return buf[buf_pos];
+    return T::to_int_type(buf[buf_pos]);
   }
 
 private:
@@ -320,7 +320,8 @@ private:
     // line = chunk-size [chunk-extension] CRLF
 
     istringstream iss(line);
-    iss >> hex >> chunk_rest;
+    if (!(iss >> hex >> chunk_rest) || chunk_rest < 0)
+      throw http_exception("invalid chunk size");
   }
 
   pfi::lang::shared_ptr<stream_socket> sock;
@@ -340,7 +341,10 @@ public:
     : sock(sock),
       rest(length),
       buf(T::eof())
-  {}
+  {
+    if (length <= 0)
+      this->sock.reset();
+  }
 
   int uflow() {
     int ret = underflow();
-- 
2.43.0


From 3552f076bc1ba2717a9b7813a2cbb43a5536767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:03 +0000
Subject: [PATCH 15/51] fix: multipart parser lost the boundary after a line of
 the content starting with --

---
 src/network/cgi/base.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index c069469..6a51a4f 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -226,6 +226,7 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     ssize_t cnt=0;
     for (char a=0, b=0, c=0; iss.get(c); a=b, b=c, cnt++){
       if (a=='\n' && b=='-' && c=='-'){
+        istream::pos_type pos=iss.tellg();
         string chk(boundary.length(), ' ');
         iss.read(&chk[0], boundary.length());
         if (chk==boundary){
@@ -238,11 +239,9 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
             str.resize(str.length()-1);
           break;
         }
-        str+=a;
-        str+="--";
-        str+=chk;
-        cnt=-1;
-        continue;
+        // not a boundary, which may even begin within these bytes
+        iss.clear();
+        iss.seekg(pos);
       }
       if (cnt>=2) str+=a;
     }
-- 
2.43.0


From 2a7948f8ecd146952e608ed059aa03bb518d76b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:23 +0000
Subject: [PATCH 16/51] fix: database statements with 8, 9 and 10 values read
 or wrote outside their argument lists

---
 src/database/statement.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/database/statement.h b/src/database/statement.h
index 98a0a91..3b52f82 100644
--- a/src/database/statement.h
+++ b/src/database/statement.h
@@ -154,7 +154,7 @@ public:
 
   template <class T1, class T2, class T3, class T4, class T5, class T6, class T7, class T8, class T9, class T10>
   int execute(T1 a1, T2 a2, T3 a3, T4 a4, T5 a5, T6 a6, T7 a7, T8 a8, T9 a9, T10 a10){
-    std::vector<pfi::lang::shared_ptr<sql_value> > args(9);
+    std::vector<pfi::lang::shared_ptr<sql_value> > args(10);
     args[0]=to_sql(a1);
     args[1]=to_sql(a2);
     args[2]=to_sql(a3);
@@ -256,7 +256,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=7) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=8) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
@@ -272,7 +272,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8, T9 &r9){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=8) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=9) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
@@ -281,7 +281,7 @@ public:
     r6=from_sql<T6>(ret[5]);
     r7=from_sql<T7>(ret[6]);
     r8=from_sql<T8>(ret[7]);
-    r9=from_sql<T8>(ret[8]);
+    r9=from_sql<T9>(ret[8]);
     return true;
   }
 
@@ -289,7 +289,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8, T9 &r9, T10 &r10){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=9) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=10) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
-- 
2.43.0


From 714a9ca0d9aba25b8051d27db9f98033a38d14c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:23 +0000
Subject: [PATCH 17/51] fix: a failing commit at the end of a transaction block
 terminated the program

---
 src/database/util.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/database/util.h b/src/database/util.h
index 2650632..dbfc473 100644
--- a/src/database/util.h
+++ b/src/database/util.h
@@ -57,8 +57,18 @@ public:
     conn->begin_transaction();
   }
 
-  ~committer(){
-    if (std::uncaught_exception()) conn->rollback();
+  // a failing commit is reported to the user of the transaction block
+  ~committer()
+#if __cplusplus >= 201103L
+    noexcept(false)
+#endif
+  {
+    if (std::uncaught_exception()){
+      try{
+        conn->rollback();
+      }catch(...){
+      }
+    }
     else conn->commit();
   }
 
-- 
2.43.0


From 9ffeb4fc6bb1df6e87e6822875c98fbb7fc0447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:24 +0000
Subject: [PATCH 18/51] fix: PostgreSQL timestamps without six digits of
 fraction crashed or came back wrong

---
 src/database/postgresql/value.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/database/postgresql/value.cpp b/src/database/postgresql/value.cpp
index 3afbcaa..6a02ef1 100644
--- a/src/database/postgresql/value.cpp
+++ b/src/database/postgresql/value.cpp
@@ -37,6 +37,7 @@
 
 #include "value.h"
 #include "types.h"
+#include "../exception.h"
 #include "../../lang/cast.h"
 #include "../../system/time_util.h"
 
@@ -103,9 +104,17 @@ sql_value *make_sql_value(char *p, int len, sql_type t)
     return new sql_float(lexical_cast<double>(p));
 
   case SQL_TIMESTAMP: {
-    tm t;
-    char *q=strptime(p, "%Y-%m-%d %T.", &t);
-    int usec=atoi(q);
+    tm t={};
+    const char *q=strptime(p, "%Y-%m-%d %T", &t);
+    if (q==NULL)
+      throw database_error("invalid timestamp");
+    int usec=0;
+    if (*q=='.'){
+      // the fraction comes without trailing zeros
+      int unit=100000;
+      for (q++;*q>='0' && *q<='9';q++,unit/=10)
+        usec+=(*q-'0')*unit;
+    }
     calendar_time ct(t.tm_year+1900, t.tm_mon+1, t.tm_mday,
                      t.tm_hour, t.tm_min, t.tm_sec, usec);
     return new sql_timestamp(clock_time(ct));
-- 
2.43.0


From d10c0f9953e1d8d0952a7cc065110d05a413ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:24 +0000
Subject: [PATCH 19/51] fix: executing a PostgreSQL statement ran whichever
 statement was prepared last on the connection

---
 src/database/postgresql/statement.cpp | 7 ++++---
 src/database/postgresql/statement.h   | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/database/postgresql/statement.cpp b/src/database/postgresql/statement.cpp
index cd61c8d..8da1e20 100644
--- a/src/database/postgresql/statement.cpp
+++ b/src/database/postgresql/statement.cpp
@@ -61,8 +61,9 @@ static string convert_query(const string &q)
 postgresql_statement::postgresql_statement(const pfi::lang::shared_ptr<postgresql_connection_impl>& conn,
                                            const string &query)
   : conn(conn)
+  , query(convert_query(query))
 {
-  postgresql_result res(PQprepare(conn->get(), "", convert_query(query).c_str(), 0, NULL));
+  postgresql_result res(PQprepare(conn->get(), "", this->query.c_str(), 0, NULL));
 
   if (!res.command_ok())
     throw database_error(PQresultErrorMessage(res.get()));
@@ -91,9 +92,9 @@ int postgresql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value>
     }
   }
 
-  PGresult *r=PQexecPrepared(conn->get(), "", n, &params[0], &param_lens[0], NULL, 0);
+  PGresult *r=PQexecParams(conn->get(), query.c_str(), n, NULL, &params[0], &param_lens[0], NULL, 0);
   if (r==NULL)
-    throw database_error("PQexecPrepared failed");
+    throw database_error("PQexecParams failed");
 
   pfi::lang::shared_ptr<postgresql_result> rtmp=
     pfi::lang::shared_ptr<postgresql_result>(new postgresql_result(r));
diff --git a/src/database/postgresql/statement.h b/src/database/postgresql/statement.h
index 5755ccf..fdc5495 100644
--- a/src/database/postgresql/statement.h
+++ b/src/database/postgresql/statement.h
@@ -56,6 +56,7 @@ public:
 
 private:
   pfi::lang::shared_ptr<postgresql_connection_impl> conn;
+  std::string query;
   pfi::lang::shared_ptr<postgresql_result> res;
 };
 
-- 
2.43.0


From 2e480532eae3b4a988ced8569eacc7d51334e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:24 +0000
Subject: [PATCH 20/51] fix: PostgreSQL transactions went on without their
 first part after a lost connection, and commit reported success for a
 rollback

---
 src/database/postgresql/connection.cpp   | 25 +++++++++++++++++++++---
 src/database/postgresql/connection_def.h |  3 +++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index 21e4b02..765033d 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -48,7 +48,7 @@ namespace database{
 namespace postgresql{
 
 postgresql_connection_impl::postgresql_connection_impl(const string &conninfo)
-  :conn(NULL)
+  :conn(NULL), in_transaction(false)
 {
   if (PQisthreadsafe()!=1)
     throw database_error("PostgreSQL is not threadsafe");
@@ -77,6 +77,10 @@ void postgresql_connection_impl::reconnect()
   if (PQstatus(conn)==CONNECTION_OK)
     return;
 
+  // a new connection would not have the transaction
+  if (in_transaction)
+    throw database_error("connection is lost within a transaction");
+
   PQreset(conn);
 
   if (PQstatus(conn)!=CONNECTION_OK)
@@ -90,21 +94,36 @@ postgresql_connection::postgresql_connection(const string &conninfo)
 
 postgresql_connection::~postgresql_connection()
 {
-  (void)connection::run("ROLLBACK");
+  try{
+    rollback();
+  }catch(...){
+  }
 }
 
 void postgresql_connection::begin_transaction()
 {
   (void)connection::run("BEGIN");
+  conn->set_in_transaction(true);
 }
 
 void postgresql_connection::commit()
 {
-  (void)connection::run("COMMIT");
+  try{
+    // the server answers COMMIT of a failed transaction with a rollback
+    bool failed=PQtransactionStatus(conn->get())==PQTRANS_INERROR;
+    (void)connection::run(failed?"ROLLBACK":"COMMIT");
+    if (failed)
+      throw database_error("transaction has failed and is rolled back");
+  }catch(...){
+    conn->set_in_transaction(false);
+    throw;
+  }
+  conn->set_in_transaction(false);
 }
 
 void postgresql_connection::rollback()
 {
+  conn->set_in_transaction(false);
   (void)connection::run("ROLLBACK");
 }
 
diff --git a/src/database/postgresql/connection_def.h b/src/database/postgresql/connection_def.h
index 42fd450..7e60f02 100644
--- a/src/database/postgresql/connection_def.h
+++ b/src/database/postgresql/connection_def.h
@@ -48,8 +48,11 @@ public:
 
   PGconn *get(){ reconnect(); return conn; }
 
+  void set_in_transaction(bool b){ in_transaction=b; }
+
 private:
   PGconn *conn;
+  bool in_transaction;
 };
 
 class postgresql_connection : public connection{
-- 
2.43.0


From c5301d3e2fae803e681c3d5f3f4facaf479c6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:24 +0000
Subject: [PATCH 21/51] fix: null parameters were sent to MySQL as empty
 numbers

---
 src/database/mysql/value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database/mysql/value.cpp b/src/database/mysql/value.cpp
index e9ee10e..d482cd5 100644
--- a/src/database/mysql/value.cpp
+++ b/src/database/mysql/value.cpp
@@ -122,7 +122,7 @@ size_t bind_length(const pfi::lang::shared_ptr<sql_value>& p)
 void to_bind(const pfi::lang::shared_ptr<sql_value>& p, MYSQL_BIND &bind)
 {
   if (!p){
-    bind.is_null=NULL;
+    bind.buffer_type=MYSQL_TYPE_NULL;
     return;
   }
 
-- 
2.43.0


From 4bfd495bc0ce217da38c1097e3f68196e03211ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:24 +0000
Subject: [PATCH 22/51] fix: MySQL transactions lost errors and went on without
 their first part after a lost connection

---
 src/database/mysql/connection.cpp   | 44 ++++++++++++++++++++---------
 src/database/mysql/connection_def.h |  5 +++-
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/database/mysql/connection.cpp b/src/database/mysql/connection.cpp
index ecdb188..b8d92af 100644
--- a/src/database/mysql/connection.cpp
+++ b/src/database/mysql/connection.cpp
@@ -47,7 +47,7 @@ mysql_connection_impl::mysql_connection_impl(const string &host,
                                              const string &passwd,
                                              const string &db,
                                              uint16_t port)
-  :conn(NULL), host(host), user(user), passwd(passwd), db(db), port(port)
+  :conn(NULL), in_transaction(false), host(host), user(user), passwd(passwd), db(db), port(port)
 {
   reconnect();
 }
@@ -68,6 +68,10 @@ void mysql_connection_impl::reconnect()
     conn=NULL;
   }
 
+  // a new connection would not have the transaction
+  if (in_transaction)
+    throw connection_error("connection is lost within a transaction");
+
   MYSQL *c=mysql_init(NULL);
 
   if (c==NULL)
@@ -102,41 +106,51 @@ mysql_connection::mysql_connection(const string &host,
 mysql_connection::~mysql_connection()
 {
   try{
-    (void)query("ROLLBACK");
+    rollback();
   }catch(...){
   }
 }
 
 void mysql_connection::begin_transaction()
 {
-  (void)query("BEGIN");
+  query("BEGIN", true);
+  conn->set_in_transaction(true);
 }
 
 void mysql_connection::commit()
 {
-  (void)query("COMMIT");
+  try{
+    // not retried: another connection would have nothing to commit
+    query("COMMIT", false);
+  }catch(...){
+    conn->set_in_transaction(false);
+    throw;
+  }
+  conn->set_in_transaction(false);
 }
 
 void mysql_connection::rollback()
 {
-  (void)query("ROLLBACK");
+  conn->set_in_transaction(false);
+  query("ROLLBACK", true);
 }
 
-int mysql_connection::query(const string &sql)
+void mysql_connection::query(const string &sql, bool retry)
 {
   if (conn->get() == NULL) reconnect();
 
-  int rc=mysql_query(conn->get(), sql.c_str());
-  if (rc == 0) return 0;
+  if (mysql_query(conn->get(), sql.c_str()) == 0) return;
 
-  rc = mysql_errno(conn->get());
-  if (rc == CR_SERVER_GONE_ERROR ||
-      rc == CR_SERVER_LOST) {
+  int rc=mysql_errno(conn->get());
+  bool lost=(rc == CR_SERVER_GONE_ERROR || rc == CR_SERVER_LOST);
+  if (lost && retry) {
     reconnect();
-  } else {
-    return rc;
+    if (mysql_query(conn->get(), sql.c_str()) == 0) return;
   }
-  return mysql_query(conn->get(), sql.c_str());
+
+  string msg(sql+": "+mysql_error(conn->get()));
+  if (lost) throw connection_error(msg);
+  throw database_error(msg);
 }
 
 void mysql_connection::reconnect()
@@ -164,6 +178,8 @@ int mysql_connection::run(const string &sql,
 
 statement *mysql_connection::prepare(const string &sql)
 {
+  if (conn->get() == NULL) reconnect();
+
   try {
     return new mysql_statement(conn, sql);
   }
diff --git a/src/database/mysql/connection_def.h b/src/database/mysql/connection_def.h
index 7799fe4..6ae70fc 100644
--- a/src/database/mysql/connection_def.h
+++ b/src/database/mysql/connection_def.h
@@ -56,8 +56,11 @@ public:
   void reconnect();
   MYSQL *get(){ return conn; }
 
+  void set_in_transaction(bool b){ in_transaction=b; }
+
 private:
   MYSQL *conn;
+  bool in_transaction;
   std::string host, user, passwd, db;
   uint16_t port;
 };
@@ -80,7 +83,7 @@ public:
   statement *prepare(const std::string &sql);
 
 private:
-  int query(const std::string &sql);
+  void query(const std::string &sql, bool retry);
   void reconnect();
 
   pfi::lang::shared_ptr<mysql_connection_impl> conn;
-- 
2.43.0


From c9412ceab05e2551617fcff54670e81c7a0cb9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:59 +0000
Subject: [PATCH 23/51] fix: calendar_time took an uninitialised flag for
 daylight saving time

---
 src/system/time_util.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/system/time_util.cpp b/src/system/time_util.cpp
index 1b0761c..f065b87 100644
--- a/src/system/time_util.cpp
+++ b/src/system/time_util.cpp
@@ -91,16 +91,17 @@ calendar_time::calendar_time(const clock_time &ct)
 
 calendar_time::calendar_time(
   int year, int mon, int mday, int hour, int min, int sec, int usec)
-  : year(year)
-  , mon(mon)
-  , mday(mday)
-  , hour(hour)
-  , min(min)
-  , sec(sec)
-  , usec(usec)
 {
-  clock_time ct(*this);
-  *this=calendar_time(ct);
+  tm t={};
+  t.tm_sec=sec;
+  t.tm_min=min;
+  t.tm_hour=hour;
+  t.tm_mday=mday;
+  t.tm_mon=mon-1;
+  t.tm_year=year-1900;
+  t.tm_isdst=-1;
+
+  *this=calendar_time(clock_time(static_cast<uint64_t>(mktime(&t)), usec));
 }
 
 clock_time get_clock_time()
-- 
2.43.0


From 224b30e7d79b433e5548cbc1450d70c7864aea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:53 +0000
Subject: [PATCH 24/51] fix: moving a mapped file unmapped it, and a closed one
 kept its size

---
 src/system/mmapper.cpp | 1 +
 src/system/mmapper.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/system/mmapper.cpp b/src/system/mmapper.cpp
index ce1af2e..d857a28 100644
--- a/src/system/mmapper.cpp
+++ b/src/system/mmapper.cpp
@@ -78,6 +78,7 @@ int mmapper::close()
   if (ptr != NULL) {
     munmap(ptr, length);
     ptr = NULL;
+    length = 0;
   }
   return 0;
 }
diff --git a/src/system/mmapper.h b/src/system/mmapper.h
index 204244b..85a9b71 100644
--- a/src/system/mmapper.h
+++ b/src/system/mmapper.h
@@ -47,8 +47,8 @@ public:
   typedef const char* const_iterator;
 
   mmapper() : ptr(NULL), length(0), fd(-1) {}
-  mmapper(mmapper&& rhs) : ptr(std::move(rhs.ptr)), length(std::move(rhs.length)), fd(std::move(rhs.fd)) {
-    mmapper().swap(rhs);
+  mmapper(mmapper&& rhs) : ptr(NULL), length(0), fd(-1) {
+    swap(rhs);
   }
   ~mmapper() { close(); }
 
-- 
2.43.0


From 02cb2b8bb4e46b09bc1b75c886e673a7647a17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:42 +0000
Subject: [PATCH 25/51] fix: serialized streams crashed without a temporary
 file and hid failing writes

---
 src/data/serialization/iostream.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data/serialization/iostream.h b/src/data/serialization/iostream.h
index 723ebd2..e735d8f 100644
--- a/src/data/serialization/iostream.h
+++ b/src/data/serialization/iostream.h
@@ -37,6 +37,7 @@
 #include <iostream>
 #include <fstream>
 #include <cstdio>
+#include <stdexcept>
 
 #include <unistd.h>
 
@@ -63,12 +64,16 @@ public:
     : fname(PathFunc()()+std::string("/serializeXXXXXX"))
     , spios(pfi::system::file::tmpstream(fname))
     , pios(spios.get()){
+    if (!pios)
+      throw std::runtime_error("cannot create temporary file: "+fname);
   }
 
   stream(PathFunc pf)
     : fname(pf()+std::string("/serializeXXXXXX"))
     , spios(pfi::system::file::tmpstream(fname))
     , pios(spios.get()){
+    if (!pios)
+      throw std::runtime_error("cannot create temporary file: "+fname);
   }
 
   stream(std::iostream &ios)
@@ -114,6 +119,8 @@ void serialize(Archive &ar, std::iostream &ios)
       else
         *p=c[0];
     }
+    if (p.failed())
+      ios.setstate(std::ios_base::badbit);
     ios.seekg(0);
   }
   else{
-- 
2.43.0


From 0088d4c0bed00a5edf1a4543dcdb5a433aeab967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:17 +0000
Subject: [PATCH 26/51] fix: reading a truncated or damaged interning table
 wrote outside its memory

---
 src/data/intern.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/intern.h b/src/data/intern.h
index 6d92a18..00d0311 100644
--- a/src/data/intern.h
+++ b/src/data/intern.h
@@ -136,8 +136,13 @@ private:
       intern tmp;
       ar & tmp.tbl;
       tmp.lbt.resize(tmp.tbl.size());
-      for (typename map_t::iterator it = tmp.tbl.begin(); it != tmp.tbl.end(); ++it)
+      for (typename map_t::iterator it = tmp.tbl.begin(); it != tmp.tbl.end(); ++it) {
+        if (!tmp.exist_id(it->second)) { // truncated or damaged data
+          tmp.clear();
+          break;
+        }
         tmp.lbt[it->second] = it->first;
+      }
       swap(tmp);
     } else {
       ar & tbl;
-- 
2.43.0


From 7039c2fa39a3e87d114f1dc63d84b752f830c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:33 +0000
Subject: [PATCH 27/51] fix: the JSON parser waited for a character after the
 end of a value, and lost the exponent of a number at the end of the data

---
 src/text/json/parser.cpp | 12 ++++++------
 src/text/json/parser.h   |  7 ++++++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index e00e6ed..bac27ba 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -242,27 +242,27 @@ void json_parser::parse_number(callback& cb)
     incr();
   }
 
-  while ((cbuf != -1 || it != end) && safe_isdigit(peek())) {
+  while (more() && safe_isdigit(peek())) {
     src += peek();
     incr();
   }
 
-  if (it != end && peek() == '.') {
+  if (more() && peek() == '.') {
     is_frac = true;
     src += '.';
     incr();
-    while (it != end && safe_isdigit(peek())) {
+    while (more() && safe_isdigit(peek())) {
       src += peek();
       incr();
     }
   }
 
-  if (it != end && (peek() == 'e' || peek() == 'E')) {
+  if (more() && (peek() == 'e' || peek() == 'E')) {
     is_frac = true;
     src += peek();
     incr();
 
-    if (it == end)
+    if (!more())
       error("after exp, digit required.");
 
     if (peek() == '+' || peek() == '-') {
@@ -271,7 +271,7 @@ void json_parser::parse_number(callback& cb)
     }
   }
 
-  while (it != end && safe_isdigit(peek())) {
+  while (more() && safe_isdigit(peek())) {
     src += peek();
     incr();
   }
diff --git a/src/text/json/parser.h b/src/text/json/parser.h
index 686f930..07cbe5e 100644
--- a/src/text/json/parser.h
+++ b/src/text/json/parser.h
@@ -114,8 +114,13 @@ private:
       charno++;
     return c;
   }
+  // a character that was peeked at already counts: asking the stream for
+  // another one might wait for data that never comes
+  bool more() {
+    return cbuf >= 0 || it != end;
+  }
   void ss() {
-    while(it != end && safe_isspace(peek()))
+    while(more() && safe_isspace(peek()))
       incr();
   }
 
-- 
2.43.0


From 6efd32456d4182ab9724719d443081f3f4308732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:33 +0000
Subject: [PATCH 28/51] fix: JSON strings were printed only up to their first
 NUL character

---
 src/text/json/base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/text/json/base.h b/src/text/json/base.h
index b608a95..32ff293 100644
--- a/src/text/json/base.h
+++ b/src/text/json/base.h
@@ -297,13 +297,14 @@ public:
     if (escape) {
       const char* p = dat.c_str();
       const char* end = p + dat.size();
-      while (*p) {
+      while (p != end) {
         pfi::data::string::uchar uc = pfi::data::string::chars_to_uchar(p, end);
         print_char(os, uc);
       }
     } else {
       const char* p = dat.c_str();
-      while (*p) {
+      const char* end = p + dat.size();
+      while (p != end) {
         print_char_without_escape(os, *p++);
       }
     }
-- 
2.43.0


From f8a06f696c0dfb0ac69ffddab397a33c0fd10fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:46 +0000
Subject: [PATCH 29/51] fix: the CSV parser read and wrote outside its buffers

An unterminated quoted field, or a row that ended in a comma or a carriage
return at the end of the data, was read past the end (endlessly, from a
stream), and the terminator of a row that filled the row buffer exactly was
written behind it.
---
 src/text/csv.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index b86a722..a22e15f 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -114,12 +114,12 @@ private:
       for (size_t bufcnt=0; ; ){
         size_t start=bufcnt;
 
-        if (*p=='\"'){
+        if (p!=q && *p=='\"'){
           p++;
-          for (;;){
+          while (p!=q){
             if (*p=='\"'){
               p++;
-              if (*p!='\"') break;
+              if (p==q || *p!='\"') break;
             }
             if (bufcnt>=buf.size()) extend();
             buf[bufcnt++]=*p++;
@@ -133,10 +133,12 @@ private:
           }
         }
 
+        if (bufcnt>=buf.size()) extend();
         buf[bufcnt++]='\0';
         cur.push_back(&buf[start]);
         if (p == q) break;
         if (*p=='\r') p++;
+        if (p == q) break;
         if (*p=='\n'){ p++; break; }
         p++;
       }
-- 
2.43.0


From 11944df98d3f20d78d9d8eec9f5d5decd75662e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:08 +0000
Subject: [PATCH 30/51] fix: writing to a MessagePack peer that went away
 killed the process with SIGPIPE

---
 src/network/mprpc/object_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/mprpc/object_stream.cpp b/src/network/mprpc/object_stream.cpp
index 2638110..146c6c1 100644
--- a/src/network/mprpc/object_stream.cpp
+++ b/src/network/mprpc/object_stream.cpp
@@ -35,6 +35,7 @@
 #include <iostream>
 #include <errno.h>
 #include <sys/types.h>
+#include <sys/socket.h>
 #include <sys/uio.h>
 #include <unistd.h>
 
@@ -102,7 +103,7 @@ int object_stream::write(const void* data, size_t size, double timeout_sec)
   const char* const pend = p + size;
   clock_time start = get_clock_time();
   while(p < pend) {
-    ssize_t rl = ::write(iofd, p, pend-p);
+    ssize_t rl = ::send(iofd, p, pend-p, MSG_NOSIGNAL);
     if(rl <= 0) {
       if(rl == 0) {
         return -1;
-- 
2.43.0


From fc2fa4c692c9249ab576371a8c887b80f2a5dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:08 +0000
Subject: [PATCH 31/51] fix: malformed MessagePack messages ended the server
 they were sent to

Data that is no MessagePack, or a request whose method name is no string, let
an exception escape from the server's thread, which ended the program; on the
client, the call ended with an exception that is no rpc_error.
---
 src/network/mprpc/rpc_server.cpp |  4 +++-
 src/network/mprpc/rpc_stream.cpp | 11 ++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/network/mprpc/rpc_server.cpp b/src/network/mprpc/rpc_server.cpp
index f5057d3..0eb50ba 100644
--- a/src/network/mprpc/rpc_server.cpp
+++ b/src/network/mprpc/rpc_server.cpp
@@ -166,10 +166,12 @@ void rpc_server::process()
         continue;
       }
 
-      rpc_request req(msg);
       try {
+        rpc_request req(msg);
         process_request(req, rs);
       } catch (rpc_error&) {
+      } catch (msgpack::type_error&) {
+        break;
       }
     }
   }
diff --git a/src/network/mprpc/rpc_stream.cpp b/src/network/mprpc/rpc_stream.cpp
index 70b2b0d..633d6f8 100644
--- a/src/network/mprpc/rpc_stream.cpp
+++ b/src/network/mprpc/rpc_stream.cpp
@@ -46,13 +46,14 @@ int rpc_stream::try_receive(rpc_message* msg)
   msgpack::object obj;
   std::unique_ptr<msgpack::zone> zone;
 
-  int ret = os.read(&obj, &zone, timeout_sec);
-  if(ret <= 0) {
-    return ret;
-  }
-
   try {
+    int ret = os.read(&obj, &zone, timeout_sec);
+    if(ret <= 0) {
+      return ret;
+    }
     msg->reset(obj, std::move(zone));
+  } catch (msgpack::unpack_error&) {
+    return -1;
   } catch (msgpack::type_error&) {
     return -1;
   }
-- 
2.43.0


From a7ed070742718237c143b08b40de1ac4924f86d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:40 +0000
Subject: [PATCH 32/51] fix: a MessagePack connection was used further after it
 had failed

The client kept a connection that was closed, and every later call failed.
After a message that could only be sent in part (time limit), client and server
sent the next one behind it, where the peer took it for the rest of the first.
---
 src/network/mprpc/object_stream.cpp | 18 ++++++++++++++++--
 src/network/mprpc/object_stream.h   |  5 +++++
 src/network/mprpc/rpc_client.cpp    |  3 ++-
 src/network/mprpc/rpc_stream.cpp    |  3 +++
 src/network/mprpc/rpc_stream.h      |  2 ++
 5 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/network/mprpc/object_stream.cpp b/src/network/mprpc/object_stream.cpp
index 146c6c1..6e1cf3d 100644
--- a/src/network/mprpc/object_stream.cpp
+++ b/src/network/mprpc/object_stream.cpp
@@ -52,11 +52,11 @@ namespace mprpc {
 
 
 object_stream::object_stream(int iofd) :
-  iofd(iofd)
+  iofd(iofd), closed(false)
 { }
 
 object_stream::object_stream(const std::string& host, uint16_t port) :
-  iofd(socket::connect_sock(host, port))
+  iofd(socket::connect_sock(host, port)), closed(false)
 { }
 
 object_stream::~object_stream()
@@ -65,9 +65,17 @@ object_stream::~object_stream()
   ::close(iofd);
 }
 
+void object_stream::shutdown()
+{
+  ::shutdown(iofd, SHUT_RDWR);
+  closed = true;
+}
+
 int object_stream::read(msgpack::object* obj, std::unique_ptr<msgpack::zone>* zone,
     double timeout_sec)
 {
+  if(closed) { return -1; }
+
   clock_time start = get_clock_time();
   while(true) {
     if(unpacker.execute()) {
@@ -99,21 +107,27 @@ int object_stream::read(msgpack::object* obj, std::unique_ptr<msgpack::zone>* zo
 
 int object_stream::write(const void* data, size_t size, double timeout_sec)
 {
+  if(closed) { return -1; }
+
   const char* p = static_cast<const char*>(data);
   const char* const pend = p + size;
   clock_time start = get_clock_time();
   while(p < pend) {
     ssize_t rl = ::send(iofd, p, pend-p, MSG_NOSIGNAL);
     if(rl <= 0) {
+      // nothing may follow a message that was not sent completely
       if(rl == 0) {
+        shutdown();
         return -1;
       }
       if(errno == EINTR) { continue; }
       if(timeout_sec > 0.0 &&
          timeout_sec < (double)(get_clock_time() - start)){
+        shutdown();
         throw rpc_timeout_error("timeout");
       }
       if(errno == EAGAIN) { continue; }
+      shutdown();
       return -1;
     }
     p += rl;
diff --git a/src/network/mprpc/object_stream.h b/src/network/mprpc/object_stream.h
index b1fbcc9..851a1a1 100644
--- a/src/network/mprpc/object_stream.h
+++ b/src/network/mprpc/object_stream.h
@@ -55,9 +55,14 @@ public:
 
   int write(const void* data, size_t size, double timeout_sec);
 
+  // no message can be read or written any more
+  void shutdown();
+  bool is_open() const { return !closed; }
+
 private:
   msgpack::unpacker unpacker;
   int iofd;
+  bool closed;
 };
 
 template <typename T>
diff --git a/src/network/mprpc/rpc_client.cpp b/src/network/mprpc/rpc_client.cpp
index 8836b99..916c9fb 100644
--- a/src/network/mprpc/rpc_client.cpp
+++ b/src/network/mprpc/rpc_client.cpp
@@ -47,7 +47,8 @@ rpc_client::~rpc_client() { }
 
 pfi::lang::shared_ptr<rpc_stream> rpc_client::get_connection()
 {
-  if(ss) { return ss; }
+  if(ss && ss->is_open()) { return ss; }
+  ss.reset();
 
   for (int i=0; i < 2; i++){
     socket sock;
diff --git a/src/network/mprpc/rpc_stream.cpp b/src/network/mprpc/rpc_stream.cpp
index 633d6f8..78c22ca 100644
--- a/src/network/mprpc/rpc_stream.cpp
+++ b/src/network/mprpc/rpc_stream.cpp
@@ -49,12 +49,15 @@ int rpc_stream::try_receive(rpc_message* msg)
   try {
     int ret = os.read(&obj, &zone, timeout_sec);
     if(ret <= 0) {
+      os.shutdown();
       return ret;
     }
     msg->reset(obj, std::move(zone));
   } catch (msgpack::unpack_error&) {
+    os.shutdown();
     return -1;
   } catch (msgpack::type_error&) {
+    os.shutdown();
     return -1;
   }
   return 1;
diff --git a/src/network/mprpc/rpc_stream.h b/src/network/mprpc/rpc_stream.h
index 73618d8..e00e642 100644
--- a/src/network/mprpc/rpc_stream.h
+++ b/src/network/mprpc/rpc_stream.h
@@ -56,6 +56,8 @@ public:
 
   bool join(uint32_t msgid, rpc_response* result);
 
+  bool is_open() const { return os.is_open(); }
+
   int try_receive(rpc_message* msg);
   bool receive(rpc_message* msg);
 
-- 
2.43.0


From b0c1749046b62f56464487291c88dd7ae5772cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:40 +0000
Subject: [PATCH 33/51] fix: a MessagePack call whose function threw an
 rpc_error was never answered

---
 src/network/mprpc/invoker.h      | 2 +-
 src/network/mprpc/rpc_server.cpp | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/network/mprpc/invoker.h b/src/network/mprpc/invoker.h
index 53a0480..2275cae 100644
--- a/src/network/mprpc/invoker.h
+++ b/src/network/mprpc/invoker.h
@@ -84,7 +84,7 @@ public:
 #define GET_PARAM(req, param) \
   if(!req.param_as(&param)) { \
     res.send_error((unsigned int)TYPE_MISMATCH); \
-    throw rpc_type_error("cannot recv argument: type error"); \
+    return; \
   }
 
 #define SEND_RESPONSE(res, param) \
diff --git a/src/network/mprpc/rpc_server.cpp b/src/network/mprpc/rpc_server.cpp
index 0eb50ba..9effa11 100644
--- a/src/network/mprpc/rpc_server.cpp
+++ b/src/network/mprpc/rpc_server.cpp
@@ -197,7 +197,6 @@ void rpc_server::process_request(rpc_request& req, const pfi::lang::shared_ptr<r
 
   try {
     fun->second->invoke(req, res);
-  } catch (rpc_error&) {
   } catch (std::exception& e) {
     res.send_error(std::string(e.what()));
   }
-- 
2.43.0


From 529382d6a560611e794da1326fd3dbd3547f707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:08 +0000
Subject: [PATCH 34/51] fix: a copied or assigned CSV iterator referred to
 another row or to freed memory

Copying an iterator that had kept its row copied the parser's current row
instead, and assignment left pointers into the buffer of the other iterator.
---
 src/text/csv.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index a22e15f..fc9310e 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -190,11 +190,13 @@ public:
   }
 
   csv_iterator(const csv_iterator &r)
-    : p(r.p), cached(false) {
-    if (p){
-      cached=true;
-      p->copy(cur, buf);
-    }
+    : p(NULL), cached(false) {
+    assign(r);
+  }
+
+  csv_iterator &operator=(const csv_iterator &r){
+    if (this!=&r) assign(r);
+    return *this;
   }
 
   bool operator==(const csv_iterator &r) const{
@@ -230,6 +232,20 @@ public:
   }
 
 private:
+  void assign(const csv_iterator &r){
+    p=r.p;
+    cached=false;
+    if (!p) return;
+    if (r.cached){
+      buf=r.buf;
+      cur.resize(r.cur.size());
+      for (size_t i=0; i<cur.size(); i++)
+        cur[i]=&buf[0]+(r.cur[i]-&r.buf[0]);
+    }
+    else p->copy(cur, buf);
+    cached=true;
+  }
+
   csv_parser *p;
 
   bool cached;
-- 
2.43.0


From 6cf11fb6f19329f4848bdaa024c2cb4bfc34b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:08 +0000
Subject: [PATCH 35/51] fix: free memory of more than 2 TiB was reported wrong

---
 src/system/sysstat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/sysstat.cpp b/src/system/sysstat.cpp
index 00cc0d9..fa829c0 100644
--- a/src/system/sysstat.cpp
+++ b/src/system/sysstat.cpp
@@ -162,7 +162,7 @@ static uint64_t get_free_memory()
       string kb;
       iss >> type >> mem >> kb;
       if (mem != "") {
-        memfree = atoi(mem.c_str());
+        memfree = atoll(mem.c_str());
         if (kb == "kB") {
           memfree *= 1000;
         }
@@ -175,7 +175,7 @@ static uint64_t get_free_memory()
       string kb;
       iss >> type >> cached >> kb;
       if (cached != "") {
-        memcached = atoi(cached.c_str());
+        memcached = atoll(cached.c_str());
         if (kb == "kB") {
           memcached *= 1000;
         }
-- 
2.43.0


From 2bab8ca94f2fc3bb5acee7501d427667f4c85651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:47 +0000
Subject: [PATCH 36/51] fix: creating a server socket again leaked its
 descriptor, or left a dead one in use

---
 src/network/socket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index ff57aa7..0a43faf 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -445,6 +445,10 @@ server_socket::~server_socket()
 
 bool server_socket::create(uint16_t port_num, int backlog)
 {
+  // a server that is created again gives up its previous socket
+  if (connected)
+    (void)close();
+
   int res;
 
   NO_INTR(sock, ::socket(PF_INET, SOCK_STREAM, 0));
-- 
2.43.0


From fa9d223c0c498bacd0ec91767671e6993d0017d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:05 +0000
Subject: [PATCH 37/51] fix: an accepted connection was lost when closing an
 unused socket reported an error

---
 src/network/socket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 0a43faf..4de0fc6 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -153,9 +153,9 @@ bool stream_socket::bind_socket(int sock, const ipv4_address &addr, uint16_t por
 {
   if (sock<0) return false;
 
+  // the old socket is gone even if closing it reports an error
   if (this->sock>=0)
-    if (!close())
-      return false;
+    (void)close();
 
   this->sock=sock;
   connected=true;
-- 
2.43.0


From af73fa2e7fb7cd26dc312a12e95a242be9da591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:41 +0000
Subject: [PATCH 38/51] fix: keep the previous value of an optional member that
 does not fit when reading JSON with defaults

The conversion started from an uninitialised or default value, so the
members of the value held before were lost and a scalar of another type
gave an indeterminate value.
---
 src/text/json/cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/json/cast.h b/src/text/json/cast.h
index 562604f..a5743fd 100644
--- a/src/text/json/cast.h
+++ b/src/text/json/cast.h
@@ -574,7 +574,7 @@ inline void serialize(json_iarchive_cast_with_default& js, pfi::data::optional<T
   if (is<json_null>(js.get()))
     v = pfi::data::optional<T>();
   else {
-    T t;
+    T t = v ? *v : T();
     serialize(js, t);
     v = t;
   }
-- 
2.43.0


From d0f9fd2be543da6c6734fc0432b29c0c3864b969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:47 +0000
Subject: [PATCH 39/51] fix: do not lose the value of an mvar when a swap fails

swap() took the value before it copied the new one: when copying or
allocating failed, the box was left empty and the value was gone.
---
 src/concurrent/mvar.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/concurrent/mvar.h b/src/concurrent/mvar.h
index a202d6f..f9a0f95 100644
--- a/src/concurrent/mvar.h
+++ b/src/concurrent/mvar.h
@@ -122,8 +122,12 @@ public:
     {
       pfi::concurrent::scoped_lock lock(m);
       if (lock) {
-        ret = take();
-        put(r);
+        while (!p)
+          cond.wait(m);
+        // nothing may be lost if copying fails
+        pfi::lang::shared_ptr<T> next(new T(r));
+        ret = *p;
+        p = next;
       }
     }
     cond.notify_all();
-- 
2.43.0


From ad75804bde3fc93455af561dbb91a5d5ac5b4fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:45 +0000
Subject: [PATCH 40/51] fix: HTTP send hid a failure to write the end of the
 headers

---
 src/network/http/base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index fbd24f0..454d583 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -220,7 +220,8 @@ void header::send(const pfi::lang::shared_ptr<stream_socket>& sock)
     if (!sock->puts(line))
       throw http_exception("cannot send header");
   }
-  sock->puts("\r\n");
+  if (!sock->puts("\r\n"))
+    throw http_exception("cannot send header");
 }
 
 // only support under C=char.
-- 
2.43.0


From 248515b94c90b79c59e64f340ec3176ebabce894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:05 +0000
Subject: [PATCH 41/51] fix: a malformed multipart body ended a CGI program
 instead of being answered with an error

---
 src/network/cgi/base.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 6a51a4f..1cdf5db 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -99,8 +99,16 @@ void cgi::exec(istream& in,
             valid=false;
             invalid_msg="Invalid html protocol";
           }
-          string boundary=env["CONTENT_TYPE"].substr(ix+9);
-          parse_multipart_input(dat, boundary);
+          else{
+            string boundary=env["CONTENT_TYPE"].substr(ix+9);
+            try{
+              parse_multipart_input(dat, boundary);
+            }
+            catch(const http::http_exception &){
+              valid=false;
+              invalid_msg="Invalid html protocol";
+            }
+          }
         }
         else
           parse_input(dat);
-- 
2.43.0


From ae8b42b47cd2ef457e8d350c75c0ef18febf9b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:05 +0000
Subject: [PATCH 42/51] fix: a quoted ';' cut the name or file name of a
 multipart part

---
 src/network/cgi/base.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 1cdf5db..732ce22 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -197,6 +197,17 @@ static inline pair<string, string> extract_attr(const string &s)
   return make_pair(key, s.substr(jx+1, kx-jx-1));
 }
 
+// end of the attribute that begins at cur: a ';' that is not quoted
+static inline string::size_type attr_end(const string &s, string::size_type cur)
+{
+  bool quoted=false;
+  for (; cur<s.length(); cur++){
+    if (s[cur]=='\"') quoted=!quoted;
+    else if (s[cur]==';' && !quoted) return cur;
+  }
+  return string::npos;
+}
+
 static inline pair<string, map<string, string> >
 extract_header(const string &s)
 {
@@ -208,8 +219,8 @@ extract_header(const string &s)
 
   for (; cur!=string::npos; ){
     cur++;
-    string::size_type next=s.find(';', cur);
-    attr.insert(extract_attr(s.substr(cur, next)));
+    string::size_type next=attr_end(s, cur);
+    attr.insert(extract_attr(s.substr(cur, next==string::npos?next:next-cur)));
     cur=next;
   }
 
-- 
2.43.0


From 2240618251586ac84b23261508d82cdab052ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:25 +0000
Subject: [PATCH 43/51] fix: header values read from a stream kept their line's
 carriage return

---
 src/network/http/base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 454d583..74e5c9a 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -133,6 +133,9 @@ header::header(const pfi::lang::shared_ptr<stream_socket>& sock)
 static bool istream_getline(istream* is, string* str)
 {
   getline(*is, *str);
+  // lines end with CRLF, as they do on a socket
+  if (str->length() > 0 && (*str)[str->length()-1] == '\r')
+    str->resize(str->length()-1);
   return is->good();
 }
 
-- 
2.43.0


From a83a6465798102440afd606d0c0c504608b71c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:10 +0000
Subject: [PATCH 44/51] fix: a multipart part that ends within its headers
 ended a CGI program

---
 src/network/cgi/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 732ce22..72c7754 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -267,7 +267,7 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
 
     istringstream jss(str);
     http::header hd(jss);
-    string body=(jss?str.substr(jss.tellg()):"");
+    string body=(jss.good()?str.substr(jss.tellg()):"");
     const string &ct=hd["Content-Type"];
     if (ct.find("multipart/")!=string::npos){
       string::size_type ix=ct.find("boundary=");
-- 
2.43.0


From 78faa5ba927729bf83a70ca99110bef53e4e8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 45/51] fix: lru keeps its entries and their order in step when
 a copy or allocation fails

set() inserted the access record first and the entry afterwards, and evicted
before it copied, touch() dropped the old record before the new one existed, and
remove() inserted a default entry for a key that is not there: an exception in
between left a record without an entry (or the reverse), later evictions then
dropped nothing or the assertion fired.  set() also read the value after
evicting the entry it may refer to.
---
 src/data/lru.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/data/lru.h b/src/data/lru.h
index 6a95be1..c9763cd 100644
--- a/src/data/lru.h
+++ b/src/data/lru.h
@@ -71,32 +71,42 @@ public:
   void set(const K &key, const V &val){
     if (cache.count(key)>0) return;
 
-    while((int)cache.size()>=max_size){
+    uint64_t cnt=cur++;
+    typename std::map<K, std::pair<V, uint64_t> >::iterator p=
+      cache.insert(std::make_pair(key, std::make_pair(val, cnt))).first;
+    try{
+      access_time.insert(std::make_pair(cnt, key));
+    }
+    catch(...){
+      cache.erase(p);
+      throw;
+    }
+
+    while((int)cache.size()>max_size){
       assert(access_time.size()==cache.size());
       const K &del_key=access_time.begin()->second;
       cache.erase(del_key);
       access_time.erase(access_time.begin());
     }
-
-    uint64_t cnt=cur++;
-    access_time.insert(std::make_pair(cnt, key));
-    cache[key]=std::make_pair(val, cnt);
   }
 
   void touch(const K &key){
     typename std::map<K, std::pair<V, uint64_t> >::iterator p=cache.find(key);
     if (p!=cache.end()){
-      access_time.erase(std::make_pair(p->second.second, key));
+      typename std::multiset<std::pair<uint64_t, K> >::iterator q=
+        access_time.find(std::make_pair(p->second.second, key));
       uint64_t cnt=cur++;
       access_time.insert(std::make_pair(cnt, key));
-      cache.find(key)->second.second=cnt;
+      access_time.erase(q);
+      p->second.second=cnt;
     }
   }
 
   void remove(const K &key){
-    uint64_t del_time=cache[key].second;
-    access_time.erase(std::make_pair(del_time, key));
-    cache.erase(key);
+    typename std::map<K, std::pair<V, uint64_t> >::iterator p=cache.find(key);
+    if (p==cache.end()) return;
+    access_time.erase(std::make_pair(p->second.second, key));
+    cache.erase(p);
   }
 
   void clear(){
-- 
2.43.0


From 40cc2c7b09e88fc4a2a5ff9144d97b2d5836efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 46/51] fix: intern keeps words and numbers in step when an
 allocation fails

key2id() added the word to the table first; when appending it to the list of
words failed, the word had a number that id2key() must not be asked for, and
the next new word was stored under another number than the one returned.
---
 src/data/intern.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/intern.h b/src/data/intern.h
index 00d0311..bc564d3 100644
--- a/src/data/intern.h
+++ b/src/data/intern.h
@@ -96,8 +96,13 @@ public:
     if (!gen)
       return -1;
     int id = tbl.size();
-    tbl.insert(std::make_pair(key, id));
     lbt.push_back(key);
+    try {
+      tbl.insert(std::make_pair(key, id));
+    } catch (...) {
+      lbt.pop_back();
+      throw;
+    }
     return id;
   }
 
-- 
2.43.0


From 3e040febd70fe25aedc5672b3d707b29908ece5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 47/51] fix: encoder and decoder report files that cannot be
 written or read

encoder::flush() is documented to return -1 for an error, but returned the number
of bytes whatever happened to the file.  decoder::attach() ignored a short read,
leaving the rest of the buffer uninitialised, and wrote before its buffer when
the size of the file could not be found out.
---
 src/data/code/code.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/data/code/code.cpp b/src/data/code/code.cpp
index 900de9e..0333cf2 100644
--- a/src/data/code/code.cpp
+++ b/src/data/code/code.cpp
@@ -60,7 +60,9 @@ namespace code {
 
   int encoder::flush(string fn) {
     ofstream ofs(fn.c_str());
-    return flush(ofs);
+    int res=flush(ofs);
+    ofs.close();
+    return ofs ? res : -1;
   }
 
   int encoder::flush(ostream& os) {
@@ -68,7 +70,7 @@ namespace code {
     os.write((char*)&bytes[0],bytes.size());
     bytes.clear();
     bit=0;
-    return res;
+    return os ? res : -1;
   }
 
   vector<unsigned char>& encoder::get_bytes() {
@@ -152,9 +154,14 @@ namespace code {
 
   int decoder::attach(istream& is, int size) {
     detach();
+    if (size<0) return -1;
     bytes=new unsigned char[size+sizeof(long long)];
     newed=true;
     is.read((char*)&bytes[0],size);
+    if (is.gcount()!=size) {
+      detach();
+      return -1;
+    }
     for (int i=size;i<(int)(size+sizeof(long long));++i) bytes[i]=0;
     return 0;
   }
-- 
2.43.0


From 465af0e2ec86bd7ab0917f3fa74a5441f080e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 48/51] fix: decoder::byte() after a code that ends within a
 byte

encoder::byte() starts a new byte, but decoder::byte() gave the unfinished one
(and went on in the middle of the next); prefix_code() already does this right.
---
 src/data/code/code.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/code/code.cpp b/src/data/code/code.cpp
index 0333cf2..076cd35 100644
--- a/src/data/code/code.cpp
+++ b/src/data/code/code.cpp
@@ -188,6 +188,10 @@ namespace code {
   }
 
   unsigned char decoder::byte() {
+    if (bit) {
+      ++pos;
+      bit=0;
+    }
     return bytes[pos++];
   }
 
-- 
2.43.0


From 419ff0d4d75e0d82832f13dfb749be0e899578a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 49/51] fix: an incomplete or partly readable matrix was read
 as another matrix

The reader ignored that the matrix file could not be read and that the table of
rows ended early (an uninitialised number of rows), and an old table of rows was
used for a matrix whose writer had failed or died.  The table is now emptied when
writing begins and stored only when all rows were, and a matrix is refused
whose files cannot be read completely or do not fit together.
---
 src/data/sparse_matrix/sparse_matrix.cpp | 36 ++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/data/sparse_matrix/sparse_matrix.cpp b/src/data/sparse_matrix/sparse_matrix.cpp
index e2a3b36..76ca28c 100644
--- a/src/data/sparse_matrix/sparse_matrix.cpp
+++ b/src/data/sparse_matrix/sparse_matrix.cpp
@@ -76,6 +76,7 @@ namespace sparse_matrix {
     int num(int index) const;
     int size(int index) const;
     int offset(int index) const;
+    int total_size() const;
     
     void append_row(int size, int num);
   private:
@@ -103,15 +104,24 @@ namespace sparse_matrix {
       
       int rowNum;
       ifs.read((char*)&rowNum,sizeof(int));
+      if (!ifs || rowNum<0) return -1;
       rowInfos=vector<RowInfo>(rowNum);
       offsets=vector<int>(rowNum);
       if (rowNum > 0)
         ifs.read((char*)&rowInfos[0],rowNum*sizeof(RowInfo));
+      if (!ifs) {
+        close();
+        return -1;
+      }
       if (offsets.size()>0) {
         offsets[0]=0;
         for (int i=1;i<(int)offsets.size();++i) offsets[i]=offsets[i-1]+rowInfos[i-1].size;
       }
-    } 
+    } else if (mode==MATRIX_IO_WRITE) {
+      // empty until flush(), so that an unfinished matrix is not taken for a complete one
+      ofstream ofs(fnOffsets.c_str());
+      if (!ofs) return -1;
+    }
     return 0;
   }
 
@@ -135,6 +145,8 @@ namespace sparse_matrix {
       int rowNum=rowInfos.size();
       ofs.write((char*)&rowNum,sizeof(int));
       if (rowNum>0) ofs.write((char*)&rowInfos[0],rowNum*sizeof(RowInfo));
+      ofs.close();
+      if (!ofs) return -1;
     }
     return 0;
   }
@@ -174,6 +186,11 @@ namespace sparse_matrix {
     return offsets[index];
   }
 
+  int matrix_offsets::total_size() const
+  {
+    return offsets.empty()?0:offsets.back()+rowInfos.back().size;
+  }
+
   void matrix_offsets::append_row(int size, int num)
   {
     RowInfo rowInfo;
@@ -215,6 +232,8 @@ namespace sparse_matrix {
     if (offsets->open(fnMat+".offset",MATRIX_IO_WRITE)<0) {
       fprintf(stderr,"sparse_matrix_writer::open: cannot open %s.offset\n",fnMat.c_str());
       ofs.close();
+      delete offsets;
+      offsets=NULL;
       return -1;
     }
     return 0;
@@ -224,7 +243,7 @@ namespace sparse_matrix {
   {
     ofs.close();
     if (offsets) {
-      offsets->flush();
+      if (ofs) offsets->flush();
       delete offsets;
       offsets=NULL;
     }
@@ -246,6 +265,7 @@ namespace sparse_matrix {
       ++termNum;
     }
     int columnSize=ec.flush(ofs);
+    if (columnSize<0) return;
     offsets->append_row(columnSize,termNum);
   }
 
@@ -262,6 +282,7 @@ namespace sparse_matrix {
       ++termNum;
     }
     int columnSize=ec.flush(ofs);
+    if (columnSize<0) return;
     offsets->append_row(columnSize,termNum);
   }
 
@@ -292,11 +313,20 @@ namespace sparse_matrix {
   int sparse_matrix_reader::open(const string& fnMat)
   {
     close();
-    dc.attach(fnMat);
+    if (dc.attach(fnMat)<0){
+      fprintf(stderr,"sparse_matrix_reader::open: cannot open %s\n",fnMat.c_str());
+      return -1;
+    }
 
     offsets=new matrix_offsets;
     if (offsets->open(fnMat+".offset",MATRIX_IO_READ)<0){
       fprintf(stderr,"sparse_matrix_reader::open: cannot open %s.offset\n",fnMat.c_str());    
+      close();
+      return -1;
+    }
+    if (offsets->total_size()!=get_file_size(fnMat)){
+      fprintf(stderr,"sparse_matrix_reader::open: %s is incomplete\n",fnMat.c_str());
+      close();
       return -1;
     }
     return 0;
-- 
2.43.0


From f87c0351a96547c53c10440658b469500a08ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:01 +0000
Subject: [PATCH 50/51] fix: uri_encode and uri_decode cut their result when
 memory runs out

A string stream swallows the exception of the failed allocation, and what had been
written until then was returned as if it were the whole.
---
 src/network/uri.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 140c5ea..2d34cfa 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -55,40 +55,40 @@ static char tochar(int h)
 
 std::string uri_encode(const std::string &s)
 {
-  ostringstream oss;
+  string ret;
   for (int i=0;i<(int)s.length();i++){
     if (isalnum(s[i])||
         s[i]=='-'||
         s[i]=='_'||
         s[i]=='.'||
         s[i]=='~')
-      oss<<s[i];
+      ret+=s[i];
     else if (s[i]==' ')
-      oss<<'+';
+      ret+='+';
     else{
       int c=(unsigned char)s[i];
-      oss<<'%';
-      oss<<tochar(c/16);
-      oss<<tochar(c%16);
+      ret+='%';
+      ret+=tochar(c/16);
+      ret+=tochar(c%16);
     }
   }
-  return oss.str();
+  return ret;
 }
 
 std::string uri_decode(const std::string &s)
 {
-  ostringstream oss;
+  string ret;
   for (int i=0;i<(int)s.length();i++){
     if (s[i]=='%' && i+2<(int)s.length()){
-      oss<<(char)(tohex(s[i+1])*16+tohex(s[i+2]));
+      ret+=(char)(tohex(s[i+1])*16+tohex(s[i+2]));
       i+=2;
     }
     else if (s[i]=='+')
-      oss<<' ';
+      ret+=' ';
     else
-      oss<<s[i];
+      ret+=s[i];
   }
-  return oss.str();
+  return ret;
 }
 
 uri::uri(const string &s)
-- 
2.43.0


From 8c7b4f1a2de0ab38307efda39d6f41ee326a2626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:01 +0000
Subject: [PATCH 51/51] fix: lexical_cast to a string reports that the value
 could not be written

like the other conversions do, instead of returning what was written so far.
---
 src/lang/cast.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/cast.h b/src/lang/cast.h
index 8c52554..2f380c0 100644
--- a/src/lang/cast.h
+++ b/src/lang/cast.h
@@ -68,7 +68,8 @@ class lexical_cast<std::string, Source, false>{
 public:
   static std::string cast(const Source &arg){
     std::ostringstream ss;
-    ss<<arg;
+    if (!(ss<<arg))
+      throw std::bad_cast();
     return ss.str();
   }
 };
-- 
2.43.0

