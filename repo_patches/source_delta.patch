From ec8e5a557b7950f43a2944c92b475c368053c8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 01/49] fix: wait_for() without a timeout must wait

conditional_wait::wait_for() and timer_killer::wait_for() passed
std::chrono::hours::max(), which overflows when added to the current time,
so they returned false at once.
---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 15e620f..cb697c4 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -100,7 +100,10 @@ namespace cmdr::pool {
       return _cv.wait_for(lk, rel_time, _p);
     }
 
-    bool wait_for() { return wait_for(std::chrono::hours::max()); }
+    bool wait_for() {
+      wait(); // hours::max() would overflow when it is added to the current time
+      return true;
+    }
 
     /**
      * @brief wait_until causes the current thread to block until the
@@ -295,7 +298,7 @@ namespace cmdr::pool {
     }
 
     bool wait_for() {
-      return wait_for(std::chrono::hours::max());
+      return conditional_wait_for_bool::wait_for();
     }
 
     /**
-- 
2.43.0


From bd5baea1f30b0575093683bae8c4d48bc0f661de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 02/49] fix: thread_pool constructor must end its workers when
 a thread cannot be created

The members were destroyed while started workers still used them, and with
C++20 these workers waited on the barrier for ever, so the constructor hung.
---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index cb697c4..5ad54f3 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -441,7 +441,17 @@ namespace cmdr::pool {
 #endif
 #endif
     {
-      start_thread(DEFAULT_POOL_SIZE);
+      try {
+        start_thread(DEFAULT_POOL_SIZE);
+      } catch (...) {
+        // a thread could not be created: end the started ones before the members they use are gone
+#if CMDR_ENABLE_THREAD_POOL_READY_SIGNAL && __cplusplus >= 202002L
+        (void) _sync_point.arrive(static_cast<std::ptrdiff_t>(DEFAULT_POOL_SIZE - _threads.size()));
+#endif
+        _tasks.clear();
+        _threads.clear();
+        throw;
+      }
     }
     // thread_pool(thread_pool &&) = delete;
     // thread_pool &operator=(thread_pool &&) = delete;
-- 
2.43.0


From dcdc06835f6bdfa33c2bb3a357dfd2665db9ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 03/49] fix: thread_pool_lite constructor must join its workers
 when a thread cannot be created

Joinable std::threads were destroyed (std::terminate), or the condition
variable they wait on.
---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 5ad54f3..43475f4 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -569,7 +569,12 @@ namespace cmdr::pool {
   public:
     thread_pool_lite(size_t threads)
         : stop(false) {
-      start(threads);
+      try {
+        start(threads);
+      } catch (...) {
+        clear(); // a thread could not be created: end and join the started ones
+        throw;
+      }
     }
 
     ~thread_pool_lite() { clear(); }
-- 
2.43.0


From 4628930323f14e480da27517edae6d737e0db284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 04/49] fix: concurrent add_observer/remove_observer with
 copy-and-swap lost registrations

The chain was copied without any lock, so it was read while another thread
swapped it, and changes made between copy and swap were dropped.
---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index e4925a9..a570fc7 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1013,6 +1013,7 @@ namespace cmdr::util {
     observable &add_observer(observer_t const &o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _w(_wm); // one modifier at a time, or a change made since copying would be lost
           auto copy = _observers;
           copy.push_back(o);
           std::lock_guard _l(_m);
@@ -1029,6 +1030,7 @@ namespace cmdr::util {
       observer_t wp = o;
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _w(_wm); // one modifier at a time, or a change made since copying would be lost
           auto copy = _observers;
           copy.push_back(wp);
           std::lock_guard _l(_m);
@@ -1045,6 +1047,7 @@ namespace cmdr::util {
     observable &remove_observer(observer_t_naked *o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _w(_wm); // one modifier at a time, or a change made since copying would be lost
           auto copy = _observers;
           copy.erase(std::remove_if(copy.begin(), copy.end(), [o](observer_t const &rhs) {
                        if (auto spt = rhs.lock())
@@ -1110,6 +1113,7 @@ namespace cmdr::util {
   private:
     std::vector<observer_t> _observers{};
     std::mutex _m{};
+    std::mutex _wm{}; // serializes the modifiers in copy-and-swap mode
   };
 
   template<typename S, bool AutoLock = true, bool CNS = true, typename Observer = observer<S>>
-- 
2.43.0


From 6cb2e69466496be65532b8b6892e2e8a47eb79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 05/49] fix: singleton_with_optional_construction_args raced on
 the first access

Concurrent first instance() calls constructed several objects.
---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index a570fc7..e905b09 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -863,6 +863,8 @@ namespace cmdr::util {
       _instance = nullptr;
     }
     static C &instance(Args... args) {
+      static std::mutex m; // the first calls may come from several threads
+      std::lock_guard<std::mutex> const lk(m);
       if (_instance == nullptr)
         _instance = new C(args...);
       return *_instance;
-- 
2.43.0


From d43986b0a376db2c256e2b7b36007519e020753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 06/49] fix: store::has(prefix, key) must look up prefix.key

---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 10a07a4..6e7bc99 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -129,7 +129,7 @@ namespace cmdr::vars {
     sk << key;
 
     std::shared_lock<std::shared_mutex> lock(mutex_);
-    auto it = _indexes.find(key);
+    auto it = _indexes.find(sk.str());
     if (it != _indexes.end()) {
       return true;
     }
-- 
2.43.0


From 31b3f957365933d699899cd7c0aae41e13c4d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 07/49] fix: overwriting a store entry with an rvalue variable
 nested its value in another std::any

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 5ae99f4..c9bac54 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -152,6 +152,7 @@ namespace cmdr::vars {
     }
     void emplace(std::any &&o) { _value.swap(o); }
     void emplace(std::any const &o) { _value = o; }
+    void emplace(std::any &o) { _value = o; }
 
     [[nodiscard]] target_type const &underlying_value() const { return _value; }
     target_type &underlying_value() { return _value; }
-- 
2.43.0


From 08611f5c8f3f4f62b5e8cb0e9f3bae3d88f02c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 08/49] fix: store::set_raw_p stored under a truncated key when
 memory ran out (streams swallow bad_alloc)

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 32 ++++++++++++------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index c9bac54..2906b6a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -1020,10 +1020,10 @@ namespace cmdr::vars {
                                                 !std::is_same<std::decay_t<A>, vars::variable>::value && !std::is_same<std::decay_t<A>, self_type>::value,
                                             int> = 0>
     void set_raw_p(char const *prefix, char const *key, A &&a0, Args &&...args) {
-      std::ostringstream os;
-      if (prefix && prefix[0] != 0) os << prefix << '.';
-      os << key;
-      _root.set(os.str().c_str(), a0, args...);
+      std::string full;
+      if (prefix && prefix[0] != 0) full.append(prefix).append(1, '.');
+      full.append(key);
+      _root.set(full.c_str(), a0, args...);
     }
     template<class A, std::enable_if_t<
 #if __GNUC__ > 9
@@ -1033,22 +1033,22 @@ namespace cmdr::vars {
                               !std::is_same<std::decay_t<A>, self_type>::value,
                           int> = 0>
     void set_raw_p(char const *prefix, char const *key, A &&a) {
-      std::ostringstream os;
-      if (prefix && prefix[0] != 0) os << prefix << '.';
-      os << key;
-      _root.set(os.str().c_str(), a);
+      std::string full;
+      if (prefix && prefix[0] != 0) full.append(prefix).append(1, '.');
+      full.append(key);
+      _root.set(full.c_str(), a);
     }
     void set_raw_p(char const *prefix, char const *key, vars::variable &&a) {
-      std::ostringstream os;
-      if (prefix && prefix[0] != 0) os << prefix << '.';
-      os << key;
-      _root.set(os.str().c_str(), a.underlying_value());
+      std::string full;
+      if (prefix && prefix[0] != 0) full.append(prefix).append(1, '.');
+      full.append(key);
+      _root.set(full.c_str(), a.underlying_value());
     }
     void set_raw_p(char const *prefix, char const *key, vars::variable const &a) {
-      std::ostringstream os;
-      if (prefix && prefix[0] != 0) os << prefix << '.';
-      os << key;
-      _root.set(os.str().c_str(), a.underlying_value());
+      std::string full;
+      if (prefix && prefix[0] != 0) full.append(prefix).append(1, '.');
+      full.append(key);
+      _root.set(full.c_str(), a.underlying_value());
     }
 
   public:
-- 
2.43.0


From 6bf363f0c6d85dc51fdabf4ed445d8062e5ce65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 09/49] fix: process::exec truncated commands, mixed up stderr
 files and lost the exit status of killed commands

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 57 ++++++++++++++--------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index d24ba8e..a3aac9e 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -17,8 +17,12 @@
 #include <thread>
 #if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__NT__)
 #include <windows.h>
+#else
+#include <sys/wait.h>
+#include <unistd.h>
 #endif
-#include <array>
+#include <cerrno>
+#include <cstdlib>
 
 #include "cmdr_defs.hh"
 #include "cmdr_path.hh"
@@ -205,29 +209,42 @@ namespace cmdr::process {
         setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + this->output.size()));
 
 #else // try POSIX
-        tmpfile_stderr = path::tmpname_for_stderr();
-        std::array<char, 512> cmd;
-        std::snprintf(cmd.data(), 512, "%s 2>%s", command, tmpfile_stderr.c_str());
-        // std::unique_ptr<FILE, decltype(&pclose)> pipe(popen(command, "r"), pclose);
-        std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.data(), "r"), [this](FILE *f) {
-          _rc = pclose(f);
-          if (_rc == EXIT_SUCCESS) {        // == 0
-          } else if (_rc == EXIT_FAILURE) { // EXIT_FAILURE is not used by all programs, maybe needs some adaptation.
-          }
+        // each command has its own stderr file, and the whole command is redirected to it
+        tmpfile_stderr = path::tmpname_for_stderr().string() + ".XXXXXX";
+        int const fd   = ::mkstemp(&tmpfile_stderr[0]);
+        if (fd < 0) {
+          throw std::runtime_error("cannot create the file for stderr!");
+        }
+        ::close(fd);
+        struct remover {
+          std::string const &name;
+          ~remover() { std::remove(name.c_str()); }
+        } const tmpfile_remover{tmpfile_stderr};
+        std::string const cmd = "exec 2>'" + tmpfile_stderr + "'\n" + command;
+        std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.c_str(), "r"), [this](FILE *f) {
+          int const st = pclose(f);
+          if (st == -1)
+            _rc = -1; // unknown
+          else if (WIFEXITED(st))
+            _rc = WEXITSTATUS(st);
+          else
+            _rc = 128 + (WIFSIGNALED(st) ? WTERMSIG(st) : 0);
         });
         if (!pipe) {
           throw std::runtime_error("popen() failed!");
         }
 
-        // std::array<char, 128> buffer;
-        int ch;
-        while ((ch = fgetc(pipe.get())) != EOF) {
-          this->output += (char) ch;
+        for (;;) {
+          int const ch = fgetc(pipe.get());
+          if (ch != EOF) {
+            this->output += (char) ch;
+          } else if (ferror(pipe.get()) && errno == EINTR) {
+            clearerr(pipe.get()); // interrupted by a signal, go on reading
+          } else {
+            break;
+          }
         }
-        // while (fgets(buffer.data(), buffer.size(), pipe.get()) != nullptr) {
-        //     this->output += buffer.data();
-        // }
-        // pipe.reset();
+        pipe.reset(); // wait for its end, stderr is complete then
         setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + this->output.size()));
 
         _ef = std::ifstream(tmpfile_stderr);
@@ -238,7 +255,7 @@ namespace cmdr::process {
 
       std::streamsize size() const { return output.length(); }
 
-      int _rc;
+      int _rc{-1}; // exit code
       std::ifstream _ef;
     };
   } // namespace detail
@@ -265,7 +282,7 @@ namespace cmdr::process {
       this->rdbuf(&buffer);
     }
 
-    int ret_code() const { return buffer._rc / 256; }
+    int ret_code() const { return buffer._rc; }
     std::ifstream &stderr_stream() { return buffer._ef; }
 
     friend std::ostream &operator<<(std::ostream &os, exec const &o) {
-- 
2.43.0


From 62e882e10ecf0b0ad97ef9ecc91f393f3dc665ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 10/49] fix: tmpname_autoincr gave the same name to different
 threads and processes

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 9fdc148..7748457 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <chrono>
 #include <filesystem>
 #include <string>
@@ -489,9 +490,18 @@ namespace cmdr::path {
    */
   inline std::filesystem::path tmpname_autoincr(char const *name_template = nullptr) {
     std::filesystem::path p = fs::temp_directory_path();
-    static int id           = 0;
+    static std::atomic<int> id{0}; // may be called from several threads
     char buf[MAX_PATH];
-    snprintf(buf, MAX_PATH, name_template ? name_template : "_%05d", id++);
+    if (name_template)
+      snprintf(buf, MAX_PATH, name_template, id++);
+    else {
+      // the process id keeps other processes' files apart
+#if defined(_WIN32)
+      snprintf(buf, MAX_PATH, "_%lu_%05d", (unsigned long) ::GetCurrentProcessId(), id++);
+#else
+      snprintf(buf, MAX_PATH, "_%lu_%05d", (unsigned long) ::getpid(), id++);
+#endif
+    }
     p /= buf;
     ensure_directory(path::dirname(p));
     return p;
-- 
2.43.0


From e5b144afe4b0cab64a236dbf24ca07d67eac0afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 11/49] fix: create_sparse_file reported success for files it
 could not create or size

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 7748457..e512f54 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -392,13 +392,17 @@ namespace cmdr::io {
     CloseHandle(hSparseFile);
 
     std::filesystem::resize_file(name, size);
+    return true;
 #else
     std::ofstream ofs(name, std::ios_base::out | std::ios_base::binary);
-    ofs.seekp(size - 1);
-    char const ch = '\0';
-    ofs.write(&ch, 1);
+    if (size > 0) {
+      ofs.seekp(size - 1);
+      char const ch = '\0';
+      ofs.write(&ch, 1);
+    }
+    ofs.close(); // flush now, so that an error is seen
+    return !ofs.fail();
 #endif
-    return true;
   }
 } // namespace cmdr::io
 
-- 
2.43.0


From fac6b0e58491c8900425b4b4e426b039101705a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 12/49] fix: ensure_file could truncate a file created
 meanwhile and claimed to have created one it could not

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index e512f54..b22b621 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -459,8 +459,11 @@ namespace cmdr::path {
   /** create a file if not exists */
   inline bool ensure_file(std::filesystem::path const &name) {
     if (!file_exists(name)) {
-      io::close_file(io::create_file(name));
-      return true;
+      // never truncates, the file may have been created by somebody else in the meantime
+      auto ofs      = io::create_file(name, std::ios_base::out | std::ios_base::app | std::ios_base::binary);
+      bool const ok = ofs.is_open();
+      io::close_file(ofs);
+      return ok;
     }
     return false;
   }
-- 
2.43.0


From 403131ceb617edf8644f6f9d7c9f7472d543da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 13/49] fix: mmap used half-failed files and mappings, copies
 of mmaplib closed and unmapped each other's

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 80 ++++++++++++++++---------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index ca5be49..a047ca7 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -14,7 +14,7 @@
 #include <sys/stat.h>
 #include <unistd.h>
 #endif
-#include <stdexcept>
+#include <utility>
 
 #include "cmdr_defs.hh"
 #include "cmdr_path.hh"
@@ -49,41 +49,50 @@ namespace cmdr::mmap {
       mmaplib();
       ~mmaplib();
       mmaplib(const char *path, bool writeable, bool shareable);
-      mmaplib(mmaplib const &mm) { __copy(mm); }
-      mmaplib(mmaplib &&mm) { __copy(mm); }
+      mmaplib(mmaplib const &mm)
+          : mmaplib() { __copy(mm); }
+      mmaplib(mmaplib &&mm) noexcept
+          : mmaplib() { __move(mm); }
       mmaplib &operator=(mmaplib const &o) {
-        __copy(o);
+        if (this != &o) {
+          cleanup();
+          __copy(o);
+        }
         return (*this);
       }
-      mmaplib &operator=(mmaplib &&o) {
-        __copy(o);
+      mmaplib &operator=(mmaplib &&o) noexcept {
+        if (this != &o) {
+          cleanup();
+          __move(o);
+        }
         return (*this);
       }
 
     private:
+      // the copy owns a handle and a mapping of its own
       void __copy(mmaplib const &mm) {
+        if (!mm.is_open())
+          return;
 #if defined(_WIN32)
-        ::DuplicateHandle(GetCurrentProcess(), mm.hFile_, GetCurrentProcess(), &hFile_, 0, FALSE, DUPLICATE_SAME_ACCESS);
-        ::DuplicateHandle(GetCurrentProcess(), mm.hMapping_, GetCurrentProcess(), &hMapping_, 0, FALSE, DUPLICATE_SAME_ACCESS);
+        FILE_HANDLE h = INVALID_HANDLE_VALUE;
+        if (!::DuplicateHandle(GetCurrentProcess(), mm.hFile_, GetCurrentProcess(), &h, 0, FALSE, DUPLICATE_SAME_ACCESS))
+          return;
+        connect(mm.writeable_, mm.shareable_, h);
 #else
-        fd_    = dup2(0, mm.fd_);
+        connect(mm.writeable_, mm.shareable_, ::dup(mm.fd_));
 #endif
-        size_ = mm.size_;
-        addr_ = mm.addr_;
       }
-      void __copy(mmaplib &&mm) {
+      void __move(mmaplib &mm) noexcept {
 #if defined(_WIN32)
-        hFile_       = mm.hFile_;
-        hMapping_    = mm.hMapping_;
-        mm.hFile_    = INVALID_HANDLE_VALUE;
-        mm.hMapping_ = NULL;
+        std::swap(hFile_, mm.hFile_);
+        std::swap(hMapping_, mm.hMapping_);
 #else
-        fd_    = mm.fd_;
-        mm.fd_ = INVALID_HANDLE_VALUE;
+        std::swap(fd_, mm.fd_);
 #endif
-        size_    = mm.size_;
-        addr_    = mm.addr_;
-        mm.addr_ = nullptr;
+        std::swap(size_, mm.size_);
+        std::swap(addr_, mm.addr_);
+        std::swap(writeable_, mm.writeable_);
+        std::swap(shareable_, mm.shareable_);
       }
 
     public:
@@ -107,6 +116,8 @@ namespace cmdr::mmap {
 #endif
       std::size_t size_;
       void *addr_;
+      bool writeable_{false};
+      bool shareable_{false};
     };
 
 #if defined(_WIN32)
@@ -153,9 +164,12 @@ namespace cmdr::mmap {
       // #endif
     }
     inline void mmaplib::connect(bool writeable, bool shareable, FILE_HANDLE fd) {
+      cleanup(); // release what it was connected to before
+      writeable_ = writeable;
+      shareable_ = shareable;
 #if defined(_WIN32)
       if (fd == INVALID_HANDLE_VALUE) {
-        std::runtime_error("");
+        return; // not opened
       }
 
       hFile_    = fd;
@@ -165,7 +179,7 @@ namespace cmdr::mmap {
 
       if (hMapping_ == NULL) {
         cleanup();
-        std::runtime_error("");
+        return;
       }
 
       // https://docs.microsoft.com/en-us/windows/win32/api/memoryapi/nf-memoryapi-mapviewoffile
@@ -173,14 +187,14 @@ namespace cmdr::mmap {
       UNUSED(shareable);
 #else
       if (fd == -1) {
-        std::runtime_error("");
+        return; // not opened
       }
 
       fd_ = fd;
       struct stat sb;
       if (fstat(fd, &sb) == -1) {
         cleanup();
-        std::runtime_error("");
+        return;
       }
       size_ = sb.st_size;
 
@@ -190,7 +204,6 @@ namespace cmdr::mmap {
 
       if (addr_ == MAP_FAILED) {
         cleanup();
-        std::runtime_error("");
       }
     }
 
@@ -253,10 +266,19 @@ namespace cmdr::mmap {
   class mmap {
   public:
     mmap(std::size_t size) {
-      _tmpname = path::tmpname_autoincr();
-      io::create_sparse_file(_tmpname, size);
-      _mm.connect(writeable, shareable, path::to_filename_h(_tmpname).c_str());
+      _tmpname                   = path::tmpname_autoincr();
+      std::string const filename = path::to_filename_h(_tmpname);
+      try {
+        if (io::create_sparse_file(_tmpname, size))
+          _mm.connect(writeable, shareable, filename.c_str());
+      } catch (...) {
+        std::remove(filename.c_str());
+        throw;
+      }
     }
+    // the file belongs to one object only
+    mmap(mmap const &)            = delete;
+    mmap &operator=(mmap const &) = delete;
     ~mmap() {
       _mm.close();
       io::delete_file(_tmpname);
-- 
2.43.0


From ec1cd4c8da410d9de092b3eeadaef11e8ecee0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 14/49] fix: ios_state_saver threw or terminated on streams
 that throw on errors

---
 libs/cmdr11/include/cmdr11/cmdr_ios.hh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_ios.hh b/libs/cmdr11/include/cmdr11/cmdr_ios.hh
index 55d9eb1..1c5c1a4 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_ios.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_ios.hh
@@ -57,17 +57,24 @@ namespace cmdr::io {
   class ios_state_saver {
   public:
     explicit ios_state_saver(std::ostream &os)
-        : ios(os) {
+        : ios(os)
+        , oldState(os.rdbuf()) { // an ios without a buffer is bad, it would throw here if os throws on badbit
       oldState.copyfmt(os);
     }
-    ~ios_state_saver() { ios.copyfmt(oldState); }
+    ~ios_state_saver() {
+      try {
+        ios.copyfmt(oldState);
+      } catch (std::ios_base::failure const &) {
+        // the stream has failed meanwhile and throws then: all is restored nevertheless
+      }
+    }
 
     ios_state_saver(const ios_state_saver &rhs)            = delete;
     ios_state_saver &operator=(const ios_state_saver &rhs) = delete;
 
   private:
     std::ostream &ios;
-    std::ios oldState{nullptr};
+    std::ios oldState;
   };
 
 } // namespace cmdr::io
-- 
2.43.0


From 72a58e58d53f1f0c45c741d59b65b276ceee28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 15/49] fix: bash completion was reported as generated although
 it could not be written

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index f855015..68f16dd 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -606,7 +606,7 @@ namespace cmdr {
     }
 
     if (ws == "bash") {
-      generate_bash_completion(dry_run, bet, print_to_stdout);
+      return generate_bash_completion(dry_run, bet, print_to_stdout);
     } else {
       std::cerr << "Not implemented for '" << std::quoted(ws) << "' yet" << '\n';
     }
@@ -627,8 +627,8 @@ namespace cmdr {
       } else {
         std::ofstream out(path);
         if (out) {
-          util::defer<bool> const dx_fn(std::bind(&std::ofstream::close, &out));
           out << contents;
+          out.close(); // it may fail too: the contents are written at the latest now
           if (out) {
             written = true;
             cross::setenv("TARGET", path.string().c_str());
@@ -759,6 +759,7 @@ fi
     string::replace_all(contents, "%{APP_VERSION}", appver);
 
     std::filesystem::path path{};
+    bool ok{true};
     if (!dry_run) {
       bool written{};
       if (bet) {
@@ -798,7 +799,11 @@ Or apply it in-place:
 $ source $TARGET
 
 )");
+        if (!written && !drop) {
+          std::cerr << "can't write to " << path << '\n';
+        }
       }
+      ok = written;
     }
 
     if (print_to_stdout && !drop)
@@ -807,7 +812,7 @@ $ source $TARGET
       if (dry_run)
         std::cout << path << " will be removed" << '\n';
     }
-    return 0;
+    return ok ? 0 : -1;
   }
 
   //     cmd::operator+(a);
-- 
2.43.0


From 28287d8d5332d90f2b9bf8968570a6a7cf80a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 16/49] fix: boolean values "on" were read as false (the
 letters were extracted as numbers)

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 44 ++++++++++++------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 2906b6a..4e97577 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -333,26 +333,26 @@ namespace cmdr::vars {
       ch = is.peek();
       if (ch == '0') {
         x = false;
-        is >> ch;
+        is.get();
         return true;
       }
       if (ch == '1') {
         x = true;
-        is >> ch;
+        is.get();
         return true;
       }
 
       if (ch == 't' || ch == 'T') {
-        is >> ch;
+        is.get();
         ch = is.peek();
         if (ch == 'r' || ch == 'R') {
-          is >> ch;
+          is.get();
           ch = is.peek();
           if (ch == 'u' || ch == 'U') {
-            is >> ch;
+            is.get();
             ch = is.peek();
             if (ch == 'e' || ch == 'E') {
-              is >> ch;
+              is.get();
               x = true;
               return true;
             }
@@ -365,14 +365,14 @@ namespace cmdr::vars {
         }
         is.unget();
       } else if (ch == 'y' || ch == 'Y') {
-        is >> ch;
-        is >> ch;
+        is.get();
+        is.get();
         ch = is.peek();
         if (ch == 'e' || ch == 'E') {
-          is >> ch;
+          is.get();
           ch = is.peek();
           if (ch == 's' || ch == 'S') {
-            is >> ch;
+            is.get();
             x = true;
             return true;
           }
@@ -383,19 +383,19 @@ namespace cmdr::vars {
         }
         is.unget();
       } else if (ch == 'f' || ch == 'F') {
-        is >> ch;
+        is.get();
         ch = is.peek();
         if (ch == 'a' || ch == 'A') {
-          is >> ch;
+          is.get();
           ch = is.peek();
           if (ch == 'l' || ch == 'L') {
-            is >> ch;
+            is.get();
             ch = is.peek();
             if (ch == 's' || ch == 'S') {
-              is >> ch;
+              is.get();
               ch = is.peek();
               if (ch == 'e' || ch == 'E') {
-                is >> ch;
+                is.get();
                 x = false;
                 return true;
               }
@@ -410,11 +410,11 @@ namespace cmdr::vars {
         }
         is.unget();
       } else if (ch == 'n' || ch == 'N') {
-        is >> ch;
-        is >> ch;
+        is.get();
+        is.get();
         ch = is.peek();
         if (ch == 'o' || ch == 'O') {
-          is >> ch;
+          is.get();
           x = false;
           return true;
         }
@@ -422,18 +422,18 @@ namespace cmdr::vars {
         return true;
 
       } else if (ch == 'o' || ch == 'O') {
-        is >> ch;
+        is.get();
         ch = is.peek();
         if (ch == 'n' || ch == 'N') {
-          is >> ch;
+          is.get();
           x = true;
           return true;
         }
         if (ch == 'f' || ch == 'F') {
-          is >> ch;
+          is.get();
           ch = is.peek();
           if (ch == 'f' || ch == 'F') {
-            is >> ch;
+            is.get();
             x = false;
             return true;
           }
-- 
2.43.0


From 70eb744b1d5747c0cdb67e6c9e543fbd80cefffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 17/49] fix: an unknown or short command name made the long
 names of its siblings unknown

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 8060aae..4339b48 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -237,16 +237,14 @@ namespace cmdr {
 
   inline typename app::cmd_matching_result app::matching_command(opt::types::parsing_context &pc) {
     cmd_matching_result cmr;
-    auto &c                          = pc.curr_command();
-    opt::types::indexed_commands &li = c._long_commands;
-    if (auto const &it = li.find(pc.title); it != li.end()) {
+    auto &c = pc.curr_command();
+    if (auto const &it = c._long_commands.find(pc.title); it != c._long_commands.end()) {
       cmr.matched = true;
       auto *p2    = it->second;
       cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, true));
     } else {
-      li              = c._short_commands;
-      auto const &it1 = li.find(pc.title);
-      if (it1 != li.end()) {
+      auto const &it1 = c._short_commands.find(pc.title);
+      if (it1 != c._short_commands.end()) {
         cmr.matched = true;
         auto *p2    = it1->second;
         cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, false));
-- 
2.43.0


From d97d1e2642c31d3e79ff7ef9f439f5e5adec9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 18/49] fix: string values were cut at the first blank and kept
 a closing quote

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 68372ef..b6a4671 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -440,11 +440,10 @@ namespace cmdr::string {
 
   inline std::string strip_quotes(const std::string &str) {
     if (str.empty()) return str;
-    std::size_t p1 = 0, p2 = str.length() - 1;
-    while (str[p1] == '"' || str[p1] == '\'') p1++;
-    while (str[p2] == '"' || str[p2] == '\'') p2--;
-    if (p2 + 1 < p1) p2 = p1 - 1;
-    return str.substr(p1, p2 + 1);
+    std::size_t p1 = 0, p2 = str.length();
+    while (p1 < p2 && (str[p1] == '"' || str[p1] == '\'')) p1++;
+    while (p2 > p1 && (str[p2 - 1] == '"' || str[p2 - 1] == '\'')) p2--;
+    return str.substr(p1, p2 - p1);
   }
 
   inline void strip_quotes(std::istream &is, std::string &s) {
@@ -454,7 +453,7 @@ namespace cmdr::string {
       is >> c;
       s = read_until(is, (char) ch);
     } else
-      is >> s;
+      std::getline(is, s, '\0'); // all of it, including blanks
   }
 
 
-- 
2.43.0


From 447f6e57bfd6e15ed0bf5248a64902c640811088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 19/49] fix: a flag set by its environment variable lost its
 type on the command line

---
 libs/cmdr11/include/cmdr11/cmdr_imp1.hh | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_imp1.hh b/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
index 9eb28fb..9835472 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
@@ -111,11 +111,7 @@ namespace cmdr::opt {
     if (_default.get() == nullptr)
       _default = std::make_shared<vars::variable>(v);
     else
-#if __GNUC__ > 9
-      _default->emplace(v);
-#else
       _default->emplace(v.underlying_value());
-#endif
     return (*this);
   }
   inline arg &arg::default_value(const_chars v) {
-- 
2.43.0


From 73ecac2f17f5ac885186e948e704b9fa36b71b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 20/49] fix: flags were counted as hit when only their name was
 a prefix of the given one

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 4339b48..79f65b7 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -273,17 +273,13 @@ namespace cmdr {
               amr.matched        = true;
               amr.matched_length = (int) itz.first.length();
               amr.matched_str    = itz.first;
-              is_long |= itz.second->hit_long();
-              is_special |= itz.second->hit_special();
-              amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+              amr.obj            = itz.second;
             }
           } else {
             amr.matched        = true;
             amr.matched_length = (int) itz.first.length();
             amr.matched_str    = itz.first;
-            is_long |= itz.second->hit_long();
-            is_special |= itz.second->hit_special();
-            amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+            amr.obj            = itz.second;
             break;
           }
         }
@@ -294,6 +290,12 @@ namespace cmdr {
         goto lookup_parents;
       }
     }
+    if (amr.matched) {
+      // only the flag finally chosen is hit, not the shorter ones tried before it
+      is_long |= amr.obj->hit_long();
+      is_special |= amr.obj->hit_special();
+      amr.obj->update_hit_count(amr.matched_str, 1, is_long, is_special);
+    }
     return amr;
   }
 
-- 
2.43.0


From de40b967e7b2d980fd31429425969c5383cb29b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 21/49] fix: flag values, hit counts and toggles of one
 app::run carried over into the next

---
 libs/cmdr11/include/cmdr11/cmdr_app.hh    |  1 +
 libs/cmdr11/include/cmdr11/cmdr_arg.hh    | 13 +++++++++++++
 libs/cmdr11/include/cmdr11/cmdr_cmd.hh    |  3 +++
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 19 +++++++++++++++++++
 libs/cmdr11/include/cmdr11/cmdr_imp1.hh   | 12 ++++++++++++
 libs/cmdr11/include/cmdr11/cmdr_impl.hh   | 15 +++++++++++++--
 6 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index 6395388..acf7dbd 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -329,6 +329,7 @@ namespace cmdr {
     void add_global_options(app &cli);
     void add_generator_menu(app &cli);
 
+    void forget_last_run();
     void prepare();
     void prepare_common_env();
     void prepare_env_vars();
diff --git a/libs/cmdr11/include/cmdr11/cmdr_arg.hh b/libs/cmdr11/include/cmdr11/cmdr_arg.hh
index afa32c1..919d0c8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_arg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_arg.hh
@@ -191,6 +191,13 @@ namespace cmdr::opt {
       _hit_env     = true;
       return (*this);
     }
+    void forget_hits() {
+      _hit_title.clear();
+      _hit_count   = 0;
+      _hit_long    = false;
+      _hit_special = false;
+      _hit_env     = false;
+    }
 
   public:
     [[nodiscard]] virtual std::string title() const {
@@ -331,6 +338,7 @@ namespace cmdr::opt {
   protected:
     // support_types _default;
     var_type _default;
+    var_type _default_saved; // while _default is the value of an env var
     string_array _env_vars;
     std::string _placeholder;
     std::string _toggle_group;
@@ -381,6 +389,7 @@ namespace cmdr::opt {
       bas::_copy(o);
 
       __COPY(_default);
+      __COPY(_default_saved);
       __COPY(_env_vars);
       __COPY(_placeholder);
       __COPY(_toggle_group);
@@ -491,6 +500,10 @@ namespace cmdr::opt {
     template<class T>
     arg &default_value(T const &v);
 
+    // the value of an env var stands in for the default value till forget_hits()
+    arg &env_value(const vars::variable &v);
+    void forget_hits();
+
     arg &toggle_group(const_chars s) {
       if (s) _toggle_group = s;
       if (!bas::_group.empty()) bas::_group = _toggle_group;
diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd.hh b/libs/cmdr11/include/cmdr11/cmdr_cmd.hh
index 2533d72..10f5d6b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd.hh
@@ -219,6 +219,9 @@ namespace cmdr::opt {
     void print_flags(std::ostream &ss, cmdr::terminal::colors::colorize &c, int &wt, bool grouped, bool show_hidden_items, bool shell_completion_mode, int level = -1) const;
 
     void walk_args(std::function<void(arg &)> const &cb);
+    // back to the state as registered: forget what the last command-line
+    // and environment hit. cb will be called for each flag that was hit.
+    void forget_hits(std::function<void(arg &)> const &cb);
   }; // class cmd
 
 } // namespace cmdr::opt
diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index f64a7bd..ba60d56 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -383,6 +383,25 @@ namespace cmdr::opt {
   }
   //#pragma clang diagnostic pop
 
+  inline void cmd::forget_hits(std::function<void(arg &)> const &cb) {
+    bas::forget_hits();
+    for (auto &a: _all_args) {
+      if (a.hit_count() > 0) {
+        a.forget_hits();
+        cb(a);
+      }
+    }
+    for (auto &it: _toggle_groups) {
+      bool first = true;
+      for (auto *a: it.second) {
+        if (first || (a->default_value()->type() == typeid(bool) && a->default_value()->as<bool>()))
+          _hit_toggle_groups[it.first] = a->title_long();
+        first = false;
+      }
+    }
+    for (auto &c: _all_commands) c.forget_hits(cb);
+  }
+
 
   namespace detail {
 
diff --git a/libs/cmdr11/include/cmdr11/cmdr_imp1.hh b/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
index 9835472..6daa5b2 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
@@ -114,6 +114,18 @@ namespace cmdr::opt {
       _default->emplace(v.underlying_value());
     return (*this);
   }
+  inline arg &arg::env_value(const vars::variable &v) {
+    if (_default && !_default_saved)
+      _default_saved = std::make_shared<vars::variable>(*_default);
+    return default_value(v);
+  }
+  inline void arg::forget_hits() {
+    bas::forget_hits();
+    if (_default_saved) {
+      _default->emplace(_default_saved->underlying_value());
+      _default_saved.reset();
+    }
+  }
   inline arg &arg::default_value(const_chars v) {
     if (_default.get() == nullptr)
       _default = std::make_shared<vars::variable>(std::string(v));
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 79f65b7..5fed9bf 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -120,7 +120,8 @@ namespace cmdr {
         }
 
         std::stringstream sst(remains);
-        opt::arg::var_type &val = amr.obj->default_value();
+        // parse into a copy: the flag keeps its default value
+        opt::arg::var_type val = std::make_shared<vars::variable>(*amr.obj->default_value());
         auto xb                 = sst.tellg();
         sst >> *val.get();
         auto xe      = sst.tellg();
@@ -751,6 +752,8 @@ namespace cmdr {
     _indexed_args.clear();
     _short_args.clear();
     _long_args.clear();
+    _toggle_groups.clear();
+    _hit_toggle_groups.clear();
     _all_commands.clear();
     _grouped_commands.clear();
     _indexed_commands.clear();
@@ -769,6 +772,13 @@ namespace cmdr {
   }
 
 
+  inline void app::forget_last_run() {
+    _args_cache.clear();
+    forget_hits([this](opt::arg &a) {
+      _store.set_raw(a.dotted_key().c_str(), *a.default_value());
+    });
+  }
+
   inline void app::prepare() {
     prepare_common_env();
     prepare_env_vars();
@@ -843,7 +853,7 @@ namespace cmdr {
           auto &v = _store.get_raw(dk);
           std::stringstream(ptr) >> v;
           cmdr_verbose_debug("      ENV[%s (%s)] => %s / %s", ev.c_str(), dk.c_str(), ptr, _store.get_raw(dk).as_string().c_str());
-          a.default_value(v);
+          a.env_value(v);
           a.update_hit_count_from_env(ev, 1);
         }
       }
@@ -877,6 +887,7 @@ namespace cmdr {
     });
 
     try {
+      forget_last_run();
       for (int i = 0; i < argc; i++) _args_cache.push_back(argv[i]);
 
       prepare();
-- 
2.43.0


From ab26d114ba56624ce1b90b4bcaf68d3b3f81fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 22/49] fix: post-invoke hooks were called twice when one of
 them threw

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 34 ++++++++++++++-----------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 5fed9bf..70f285b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -555,7 +555,18 @@ namespace cmdr {
         rc = c.on_pre_invoke()(c, remain_args);
       }
     }
-    try {
+
+    // the post hooks are called exactly once, whatever is thrown before
+    std::exception_ptr eptr;
+    auto guarded = [&eptr](auto &&fn) {
+      try {
+        fn();
+      } catch (...) {
+        if (!eptr) eptr = std::current_exception();
+      }
+    };
+
+    guarded([&]() {
       if (rc == 0) {
         if (c.on_invoke()) {
           rc = c.on_invoke()(c, remain_args);
@@ -569,26 +580,19 @@ namespace cmdr {
 #endif
         }
       }
-
-      if (c.on_post_invoke()) {
-        c.on_post_invoke()(c, remain_args);
-      }
-      if (_global_on_post_invoke) {
-        _global_on_post_invoke(c, remain_args);
-      }
-
-    } catch (...) {
+    });
+    guarded([&]() {
       if (c.on_post_invoke()) {
         c.on_post_invoke()(c, remain_args);
       }
+    });
+    guarded([&]() {
       if (_global_on_post_invoke) {
         _global_on_post_invoke(c, remain_args);
       }
-
-      std::exception_ptr eptr = std::current_exception();
-      if (eptr) {
-        std::rethrow_exception(eptr);
-      }
+    });
+    if (eptr) {
+      std::rethrow_exception(eptr);
     }
     return rc;
   }
-- 
2.43.0


From 4d1c430d2537caf5bd8c315ee2af92ab7a06e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 23/49] fix: an exception of an on_post_run handler terminated
 the program, biz errors were sliced

---
 libs/cmdr11/include/cmdr11/cmdr_app.hh  |  1 +
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 55 +++++++++++++++++--------
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index acf7dbd..1a03e6a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -329,6 +329,7 @@ namespace cmdr {
     void add_global_options(app &cli);
     void add_generator_menu(app &cli);
 
+    int parse_and_invoke(int argc, char *argv[]);
     void forget_last_run();
     void prepare();
     void prepare_common_env();
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 70f285b..2de2108 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -872,24 +872,37 @@ namespace cmdr {
     cmdr_verbose_debug(" - app::run ...");
     std::lock_guard guard(_run_is_singleton);
 
-    class post_runner {
-      std::function<void()> _fn;
-
-    public:
-      explicit post_runner(std::function<void()> fn)
-          : _fn(std::move(fn)) {}
-      post_runner(const post_runner &) = delete;
-      post_runner(post_runner *&)      = delete;
-      ~post_runner() {
-        if (_fn) { _fn(); }
-      }
-    };
+    int rc{-1};
+    std::exception_ptr eptr;
+    try {
+      rc = parse_and_invoke(argc, argv);
+    } catch (...) {
+      eptr = std::current_exception();
+    }
+
     // // optional to post_run(), for the rare exception post processing if necessary
-    post_runner post_runner([this]() {
+    try {
       post_run();
-      DEBUG_ONLY(_sa_lf.close());
-    });
+    } catch (cmdr::exception::cmdr_biz_error const &e) {
+      if (_no_catch_cmdr_biz_error && !eptr) {
+        throw;
+      }
+      CMDR_DUMP_WITHOUT_STACK_TRACE(e);
+      rc = -1;
+    } catch (std::exception const &e) {
+      std::cerr << "Exception caught : " << e.what() << '\n';
+      CMDR_DUMP_STACK_TRACE(e);
+      rc = -1;
+    }
+    DEBUG_ONLY(_sa_lf.close());
+
+    if (eptr) {
+      std::rethrow_exception(eptr);
+    }
+    return rc;
+  }
 
+  inline int app::parse_and_invoke(int argc, char *argv[]) {
     try {
       forget_last_run();
       for (int i = 0; i < argc; i++) _args_cache.push_back(argv[i]);
@@ -961,7 +974,7 @@ namespace cmdr {
 
     } catch (cmdr::exception::cmdr_biz_error const &e) {
       if (_no_catch_cmdr_biz_error) {
-        throw e;
+        throw; // as what it is, for instance a required_flag_missed
       }
       CMDR_DUMP_WITHOUT_STACK_TRACE(e);
 
@@ -1028,11 +1041,19 @@ namespace cmdr {
 
 
   inline void app::post_run() const {
+    std::exception_ptr failed;
     for (auto const &fn: _on_post_runs) {
       if (fn) {
-        fn(*this);
+        try {
+          fn(*this);
+        } catch (...) { // the other handlers still have to be called
+          if (!failed) failed = std::current_exception();
+        }
       }
     }
+    if (failed) {
+      std::rethrow_exception(failed);
+    }
 
     if (std::current_exception() != nullptr) {
       handle_eptr(std::current_exception());
-- 
2.43.0


From 8ee30e0a95fcdbb6f68708e99fc58f287cc8c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 24/49] fix: yaml_loader worked in the first run only, used a
 destroyed object and took APP_VERSION for the config file

---
 addons/loaders/yaml_loader.hh | 51 ++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index 10a4b77..3420f9f 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -85,7 +85,7 @@ namespace cmdr::addons::loaders {
   class yaml_loader {
   public:
     cmdr::types::on_loading_externals operator()() const {
-      return [this](cmdr::app &c) {
+      return [self = *this](cmdr::app &c) {
         UNUSED(c);
 
         static std::vector searches = {
@@ -104,38 +104,39 @@ namespace cmdr::addons::loaders {
         };
 
         const char *const env_var = "CONFIG_FILE";
-        c += cmdr::opt::opt{""}("config")
-                 .description("the directory or the full-path of the main config file")
-                 .group(SYS_MGMT_GROUP)
-                 .placeholder("CONFIG_FILE")
-                 .env_vars(env_var)
-                 .on_hit([&](opt::cmd const &hit, opt::arg const &hit_flag, string_array const &remain_args) -> opt::Action {
-                   UNUSED(hit, hit_flag, remain_args);
-                   if (hit_flag.hit_count()) {
-                     auto file = cmdr::get_for_cli<std::string>("config");
-                     load_config_file_or_dir(file, c);
-                   }
-                   return opt::Action::Continue;
-                 });
+        if (!c["config"].valid()) // not yet added by an earlier run
+          c += cmdr::opt::opt{""}("config")
+                   .description("the directory or the full-path of the main config file")
+                   .group(SYS_MGMT_GROUP)
+                   .placeholder("CONFIG_FILE")
+                   .env_vars(env_var)
+                   .on_hit([self, &c](opt::cmd const &hit, opt::arg const &hit_flag, string_array const &remain_args) -> opt::Action {
+                     UNUSED(hit, hit_flag, remain_args);
+                     if (hit_flag.hit_count()) {
+                       auto file = cmdr::get_for_cli<std::string>("config");
+                       self.load_config_file_or_dir(file, c);
+                     }
+                     return opt::Action::Continue;
+                   });
 
         // load from env_var
 #if defined(_WIN32) || defined(_WIN64)
-        std::string szbuf1;
+        std::string szbuf;
         {
-          char* buf1 = nullptr;
+          char* buf = nullptr;
           size_t sz = 0;
-          if (_dupenv_s(&buf1, &sz, "APP_VERSION") == 0 && buf1 != nullptr) {
-            szbuf1 = buf1;
-            free(buf1);
+          if (_dupenv_s(&buf, &sz, env_var) == 0 && buf != nullptr) {
+            szbuf = buf;
+            free(buf);
           }
         }
-        auto* appver = szbuf1.c_str();
+        auto* config_file = szbuf.c_str();
 #else
-        char *appver = std::getenv("APP_VERSION");
+        char *config_file = std::getenv(env_var);
 #endif
-        if (appver && *appver) {
-          auto file = std::string(appver);
-          load_config_file_or_dir(file, c);
+        if (config_file && *config_file) {
+          auto file = std::string(config_file);
+          self.load_config_file_or_dir(file, c);
         }
 
         // scan the pre-defined locations
@@ -146,7 +147,7 @@ namespace cmdr::addons::loaders {
           auto p = expand_env(sp);
           if (!p.empty() && file_exists(p)) {
             // load it
-            load_to(p, c);
+            self.load_to(p, c);
           }
         }
       };
-- 
2.43.0


From 882f35966e21a2104b046a35ce39ab07b9611702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 25/49] fix: yaml_loader took unreadable config files for
 loaded

---
 addons/loaders/yaml_loader.hh | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index 3420f9f..eb69672 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -169,28 +169,32 @@ namespace cmdr::addons::loaders {
       }
     }
     void load_to(std::string const &p, cmdr::app &c) const {
-      YAML::Node config = YAML::LoadFile(p);
+      std::ifstream in(p);
+      if (!in) {
+        throw YAML::BadFile(p);
+      }
+      // an iterator throws if the file cannot be read to its end
+      YAML::Node config = YAML::Load(std::string{std::istreambuf_iterator<char>(in), {}});
 
       // auto &cli = cmdr::get_app();
       // auto const *k1 = "config.file.files";
       // auto& v1 = cli.get(k1).as<std::vector<std::string> &>();
       // std::cout << k1 << ':' << v1.size() << '\n';
 
-      cmdr::util::defer<bool> _loaded_ok([p]() {
-        auto &cli = cmdr::get_app();
-        cli.set("config.file.loaded", true);
-        auto const *k = "config.file.files";
-        if (!cli.has(k)) {
-          cli.set(k, std::vector<std::string>{p});
-          return;
-        }
-        cli.get(k).as<std::vector<std::string> &>().push_back(p);
-        // cli.set(k, vec);
+      load_node_to("", config, c);
 
-        // TODO loading the conf.d directory if it's present.
-      });
+      // it's really loaded now
+      auto &cli = cmdr::get_app();
+      cli.set("config.file.loaded", true);
+      auto const *k = "config.file.files";
+      if (!cli.has(k)) {
+        cli.set(k, std::vector<std::string>{p});
+        return;
+      }
+      cli.get(k).as<std::vector<std::string> &>().push_back(p);
+      // cli.set(k, vec);
 
-      load_node_to("", config, c);
+      // TODO loading the conf.d directory if it's present.
     }
     void load_node_to(std::string const &pk, YAML::Node const &node, cmdr::app &c) const {
       for (YAML::const_iterator it = node.begin(); it != node.end(); ++it) {
-- 
2.43.0


From 5623d2bb8d45d0c16c7632b5bb71b6b870da80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 26/49] fix: a failure while app::run resets a flag left the
 value of the last run behind

---
 libs/cmdr11/include/cmdr11/cmdr_arg.hh    | 2 +-
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 3 +--
 libs/cmdr11/include/cmdr11/cmdr_imp1.hh   | 5 +++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_arg.hh b/libs/cmdr11/include/cmdr11/cmdr_arg.hh
index 919d0c8..26efdd4 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_arg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_arg.hh
@@ -502,7 +502,7 @@ namespace cmdr::opt {
 
     // the value of an env var stands in for the default value till forget_hits()
     arg &env_value(const vars::variable &v);
-    void forget_hits();
+    void forget_hits(std::function<void(arg &)> const &cb);
 
     arg &toggle_group(const_chars s) {
       if (s) _toggle_group = s;
diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index ba60d56..1bacf6d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -387,8 +387,7 @@ namespace cmdr::opt {
     bas::forget_hits();
     for (auto &a: _all_args) {
       if (a.hit_count() > 0) {
-        a.forget_hits();
-        cb(a);
+        a.forget_hits(cb);
       }
     }
     for (auto &it: _toggle_groups) {
diff --git a/libs/cmdr11/include/cmdr11/cmdr_imp1.hh b/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
index 6daa5b2..11c819d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
@@ -119,12 +119,13 @@ namespace cmdr::opt {
       _default_saved = std::make_shared<vars::variable>(*_default);
     return default_value(v);
   }
-  inline void arg::forget_hits() {
-    bas::forget_hits();
+  inline void arg::forget_hits(std::function<void(arg &)> const &cb) {
     if (_default_saved) {
       _default->emplace(_default_saved->underlying_value());
       _default_saved.reset();
     }
+    cb(*this);
+    bas::forget_hits(); // at last: if something throws, the next run can try it again
   }
   inline arg &arg::default_value(const_chars v) {
     if (_default.get() == nullptr)
-- 
2.43.0


From 93c6ab182f4d55adc2fb1d0061abf380d40f9a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 27/49] fix: high_res_duration measured with the settable
 realtime clock

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 76894c0..2d77662 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -203,11 +203,11 @@ namespace cmdr::chrono {
    */
   class high_res_duration {
   public:
-    high_res_duration(std::function<bool(std::chrono::high_resolution_clock::duration duration)> const &fn = nullptr)
-        : _then(std::chrono::high_resolution_clock::now())
+    high_res_duration(std::function<bool(std::chrono::steady_clock::duration duration)> const &fn = nullptr)
+        : _then(std::chrono::steady_clock::now())
         , _cb(fn) {}
     ~high_res_duration() {
-      _now          = std::chrono::high_resolution_clock::now();
+      _now          = std::chrono::steady_clock::now();
       auto duration = _now - _then;
 
       // auto [ss, ms, us] = break_down_durations<std::chrono::seconds, std::chrono::milliseconds, std::chrono::microseconds>(duration);
@@ -229,8 +229,8 @@ namespace cmdr::chrono {
     void print_duration(std::ostream &os, T const &v);
 
   private:
-    std::chrono::time_point<std::chrono::high_resolution_clock, std::chrono::nanoseconds> _then, _now;
-    std::function<bool(std::chrono::high_resolution_clock::duration)> _cb;
+    std::chrono::time_point<std::chrono::steady_clock, std::chrono::nanoseconds> _then, _now;
+    std::function<bool(std::chrono::steady_clock::duration)> _cb;
   };
 
 
-- 
2.43.0


From 1c77e8200ca616fde83f9dae5e8d5e4c5e64ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 28/49] fix: time conversions shared libc's static struct tm
 between threads

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 33 ++++++++++++-----------
 libs/cmdr11/include/cmdr11/cmdr_defs.hh   | 20 ++++++++++----
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 2d77662..e259f7c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -550,7 +550,7 @@ namespace cmdr::chrono {
       }
       return tm1;
 #else
-      return *std::gmtime(&time_now);
+      return *cross::gmtime(&time_now);
 #endif
     }
 #if defined(_WIN32) || defined(_WIN64)
@@ -558,16 +558,16 @@ namespace cmdr::chrono {
     localtime_s(&tm1, &time_now);
     return tm1;
 #else
-    return *std::localtime(&time_now);
+    return *cross::localtime(&time_now);
 #endif
   }
 
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
   inline std::tm time_t_2_tm(time_t t) {
     if (GMT) {
-      return *std::gmtime(&t);
+      return *cross::gmtime(&t);
     }
-    return *std::localtime(&t);
+    return *cross::localtime(&t);
   }
 
 } // namespace cmdr::chrono
@@ -576,14 +576,14 @@ namespace cmdr::chrono {
 namespace cmdr::chrono {
   // NOTE: just for std::chrono::system_clock
   template<class _Clock, class _Duration = typename _Clock::duration>
-  inline std::ostream &serialize_time_point(std::ostream &os, std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
+  inline std::ostream &serialize_time_point_as(std::ostream &os, std::chrono::time_point<_Clock, _Duration> const &time, const char *format, bool gmt) {
     using iom_     = cmdr::chrono::iom;
     // using tp = std::chrono::time_point<_Clock, _Duration>;
     std::time_t tt = _Clock::to_time_t(time);
     if (tt == -1)
       return os;
     std::tm *tm{nullptr};
-    if (iom_::has(iom_::fmtflags::gmt_or_local)) {
+    if (gmt) {
 #if defined(_WIN32) || defined(_WIN64)
       struct tm tm1;
       __int64 ltime;
@@ -595,7 +595,7 @@ namespace cmdr::chrono {
         tm = &tm1;
       }
 #else
-      tm = std::gmtime(&tt); // GMT (UTC)
+      tm = cross::gmtime(&tt); // GMT (UTC)
 #endif
     } else { // if (iom_::has(iom_::fmtflags::local))
 #if defined(_WIN32) || defined(_WIN64)
@@ -604,7 +604,7 @@ namespace cmdr::chrono {
       localtime_s(&tm1, &now);
       tm = &tm1;
 #else
-      tm = std::localtime(&tt); // Locale time-zone, usually UTC by default.
+      tm = cross::localtime(&tt); // Locale time-zone, usually UTC by default.
 #endif
     }
     // else
@@ -641,6 +641,10 @@ namespace cmdr::chrono {
     return os;
   }
   template<class _Clock, class _Duration = typename _Clock::duration>
+  inline std::ostream &serialize_time_point(std::ostream &os, std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
+    return serialize_time_point_as(os, time, format, iom::has(iom::fmtflags::gmt_or_local));
+  }
+  template<class _Clock, class _Duration = typename _Clock::duration>
   inline std::string format_time_point(std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
     std::stringstream ss;
     serialize_time_point(ss, time, format);
@@ -649,11 +653,8 @@ namespace cmdr::chrono {
   inline std::string format_time_point(const char *format = "%Y-%m-%d %H:%M:%S") { return format_time_point(std::chrono::system_clock::now(), format); }
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline std::string format_time_point_to_local(std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
-    using iom_ = cmdr::chrono::iom;
-    iom_::saver _iom_saver{};
-    iom_::set_flags(iom_::fmtflags::gmt_or_local, false);
     std::stringstream ss;
-    serialize_time_point(ss, time, format);
+    serialize_time_point_as(ss, time, format, false); // the flags in iom are shared by all threads
     return ss.str();
   }
   inline std::string format_time_point_to_local(const char *format = "%Y-%m-%d %H:%M:%S") { return format_time_point(std::chrono::system_clock::now(), format); }
@@ -808,7 +809,7 @@ namespace cmdr::chrono {
       }
 #else
       const auto tt = std::chrono::system_clock::to_time_t(_now);
-      tm            = std::gmtime(&tt); // GMT (UTC)
+      tm            = cross::gmtime(&tt); // GMT (UTC)
 #endif
     } else { // if (iom_::has(iom_::fmtflags::local))
 #if defined(_WIN32) || defined(_WIN64)
@@ -818,7 +819,7 @@ namespace cmdr::chrono {
       tm = &tm1;
 #else
       const auto tt = std::chrono::system_clock::to_time_t(_now);
-      tm            = std::localtime(&tt); // Locale time-zone, usually UTC by default.
+      tm            = cross::localtime(&tt); // Locale time-zone, usually UTC by default.
 #endif
     }
     // else
@@ -900,7 +901,7 @@ namespace cmdr::chrono {
 #else
       auto now      = Clock::now();
       auto time_now = Clock::to_time_t(now);
-      tm            = *std::gmtime(&time_now);
+      tm            = *cross::gmtime(&time_now);
 #endif
     } else {
 #if defined(_WIN32) || defined(_WIN64)
@@ -909,7 +910,7 @@ namespace cmdr::chrono {
 #else
       auto now      = Clock::now();
       auto time_now = Clock::to_time_t(now);
-      tm            = *std::localtime(&time_now);
+      tm            = *cross::localtime(&time_now);
 #endif
     }
 
diff --git a/libs/cmdr11/include/cmdr11/cmdr_defs.hh b/libs/cmdr11/include/cmdr11/cmdr_defs.hh
index 35ef293..1777260 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_defs.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_defs.hh
@@ -1273,12 +1273,22 @@ namespace cmdr { namespace cross {
   inline time_t time(time_t *_t = nullptr) {
     return std::time(_t);
   }
+  /**
+   * @brief like std::gmtime, but every thread has its own result buffer.
+   */
   inline struct tm *gmtime(time_t const *_t = nullptr) {
-    if (!_t) {
-      time_t const vt = time();
-      return std::gmtime(&vt);
-    }
-    return std::gmtime(_t);
+    static thread_local struct tm _tm{};
+    time_t const vt = _t ? *_t : time();
+    return ::gmtime_r(&vt, &_tm);
+  }
+  /**
+   * @brief like std::localtime, but every thread has its own result buffer.
+   */
+  inline struct tm *localtime(time_t const *_t = nullptr) {
+    static thread_local struct tm _tm{};
+    time_t const vt = _t ? *_t : time();
+    ::tzset(); // localtime_r needn't look at TZ again, but std::localtime does
+    return ::localtime_r(&vt, &_tm);
   }
 
   template<class T>
-- 
2.43.0


From 01ec562d7cb6514c8b6495faf625abac239ff165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 29/49] fix: assigning to a variable emptied the assigned
 string or vector and nested other variables

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 4e97577..08fe8c3 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -129,9 +129,10 @@ namespace cmdr::vars {
       _value = o;
       return (*this);
     }
-    template<typename T>
+    template<typename T,
+             std::enable_if_t<!std::is_same<std::decay_t<T>, self_type>::value, int> = 0>
     variable &operator=(T &&o) {
-      _value = std::move(o);
+      _value = std::forward<T>(o);
       return (*this);
     }
 
-- 
2.43.0


From f6eb1e908f365a3262cbbd72f7456a35ac981b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 30/49] fix: options set by a YAML config file lost the type of
 the option and could not be read

---
 addons/loaders/yaml_loader.hh | 38 +++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index eb69672..16e555d 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -214,6 +214,7 @@ namespace cmdr::addons::loaders {
             ks << key;
 
             auto val = safe_get_value(it->second);
+            keep_option_type(ks.str(), it->second, val, c);
             c.store().set_raw(ks.str().c_str(), val);
             break;
           }
@@ -231,9 +232,11 @@ namespace cmdr::addons::loaders {
 
             if (!vec.empty()) {
               cmdr::vars::variable val{vec};
+              keep_option_type(ks.str(), it->second, val, c);
               c.store().set_raw(ks.str().c_str(), val);
             } else {
               cmdr::vars::variable val{std::vector<std::string>{}};
+              keep_option_type(ks.str(), it->second, val, c);
               c.store().set_raw(ks.str().c_str(), val);
             }
             break;
@@ -254,6 +257,41 @@ namespace cmdr::addons::loaders {
       }
     }
 
+    /**
+     * @brief the value of an option has the type of its default value,
+     * wherever the value comes from.
+     */
+    static void keep_option_type(std::string const &key, YAML::Node const &node, cmdr::vars::variable &val, cmdr::app &c) {
+      c.walk_args([&](opt::arg &a) {
+        if (a.dotted_key() != key || a.default_value()->type() == val.type())
+          return;
+        if (node.IsScalar()) {
+          if (a.default_value()->type() == typeid(std::string)) {
+            val = node.as<std::string>();
+            return;
+          }
+          cmdr::vars::variable v = *a.default_value();
+          std::stringstream ss(node.as<std::string>());
+          if (ss >> v)
+            val = v;
+        } else {
+          (void) (as_vector<std::string>(a, node, val) || as_vector<bool>(a, node, val) ||
+                  as_vector<int>(a, node, val) || as_vector<unsigned>(a, node, val) ||
+                  as_vector<long>(a, node, val) || as_vector<float>(a, node, val) ||
+                  as_vector<double>(a, node, val));
+        }
+      });
+    }
+
+    template<typename T>
+    static bool as_vector(opt::arg &a, YAML::Node const &node, cmdr::vars::variable &val) {
+      if (a.default_value()->type() != typeid(std::vector<T>))
+        return false;
+      if (auto vec = YAML::as_if<std::vector<T>, std::optional<std::vector<T>>>(node)(); vec.has_value())
+        val = vec.value();
+      return true;
+    }
+
     template<typename T>
     static auto extractor(YAML::Node const &node) {
       return YAML::as_if<bool, std::optional<bool>>(node)();
-- 
2.43.0


From 6a881c20745084715f71f937c61ad4bae5057ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 31/49] fix: a refused duplicate or failed registration left a
 half-registered command or flag behind

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 42 ++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 1bacf6d..f45bb65 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -12,6 +12,8 @@
 #include <set>
 #include <sstream>
 #include <stdexcept>
+#include <tuple>
+#include <utility>
 
 
 #include "cmdr_defs.hh"
@@ -82,8 +84,42 @@ namespace cmdr::opt {
     return (*this);
   }
 
+  namespace detail {
+    // Registering an item changes several containers. They all get
+    // their old contents back unless it is done() completely.
+    template<typename List, typename... T>
+    class registering {
+      List &_items;
+      typename List::size_type _size;
+      std::tuple<T &...> _now;
+      std::tuple<T...> _before;
+      bool _done{};
+
+    public:
+      explicit registering(List &items, T &...indexes)
+          : _items(items)
+          , _size(items.size())
+          , _now(indexes...)
+          , _before(indexes...) {}
+      registering(registering const &)            = delete;
+      registering &operator=(registering const &) = delete;
+      ~registering() {
+        if (_done) return;
+        swap_back(std::index_sequence_for<T...>{});
+        while (_items.size() > _size) _items.pop_back();
+      }
+      void done() { _done = true; }
+
+    private:
+      template<std::size_t... I>
+      void swap_back(std::index_sequence<I...>) { (std::swap(std::get<I>(_now), std::get<I>(_before)), ...); }
+    };
+  } // namespace detail
+
   inline void cmd::add(arg const &a) {
     if (a.valid()) {
+      detail::registering r{_all_args, _grouped_args, _indexed_args, _short_args, _long_args,
+                            _hit_toggle_groups, _toggle_groups, _last_added_arg};
       auto gn = a.group_name();
       if (gn.empty()) {
         if (a.toggle_group_name().empty())
@@ -128,7 +164,7 @@ namespace cmdr::opt {
 
       if (auto const &it = _long_args.find(a.title_long()); it != _long_args.end())
         // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_short_flag_found, &a, this);
+        cmdr_throw_as(dup_long_flag_found, &a, this);
       _long_args.insert({a.title_long(), ptr});
 
       for (auto const &itz: a.title_aliases()) {
@@ -156,6 +192,7 @@ namespace cmdr::opt {
 
       // auto dk = dotted_key();
       cmdr::get_app().on_arg_added(ptr);
+      r.done();
 
       // std::cout << gn << ',' << _grouped_args[gn].size() << '\n';
     }
@@ -163,6 +200,8 @@ namespace cmdr::opt {
 
   inline void cmd::add(cmd const &a) {
     if (a.valid()) {
+      detail::registering r{_all_commands, _grouped_commands, _indexed_commands, _short_commands, _long_commands,
+                            _last_added_command};
       auto gn = a.group_name();
       if (gn.empty()) {
         gn = UNSORTED_GROUP;
@@ -210,6 +249,7 @@ namespace cmdr::opt {
       ptr->owner(this);
 
       cmdr::get_app().on_cmd_added(ptr);
+      r.done();
     }
   }
 
-- 
2.43.0


From 7cf9608cc7840a1485ca73a8fa67c7602ef7b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 32/49] fix: a colorizer for 256 colors printed its first text
 black on black

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 90ad0e3..8e66ac8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -125,13 +125,12 @@ namespace cmdr::terminal::colors {
     // protected:
   public:
     explicit colorize(bool true_color_enabled = true)
-        : _fg{}
-        , _bg{}
+        : _fg{-1}
+        , _bg{-1}
         , _st{}
         , _true_color_enabled(true_color_enabled) {
       _init();
       if (_colors <= 256) _true_color_enabled = false;
-      if (_true_color_enabled) _fg = _bg = -1;
       _colorful = _default_colorful;
     }
 
@@ -790,9 +789,8 @@ namespace cmdr::terminal::colors {
 
     void clear() {
       // NOTE: _colorful, _default_colorful, _colors, _true_color_enabled will be kept.
-      _fg = _bg = {};
+      _fg = _bg = -1;
       _st._i    = 0;
-      if (_true_color_enabled) _fg = _bg = -1;
       _auto_reset = true;
       _cc         = {};
       _ss.clear();
-- 
2.43.0


From 7b729eb8f83ae732705d80fe5ae689d559301f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 33/49] fix: throwing a cmdr_exception crashed when there was
 no memory for the stack trace

---
 libs/cmdr11/include/cmdr11/cmdr_dbg.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
index fa6a80d..2f1403a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
@@ -465,6 +465,7 @@ namespace cmdr::debug {
     }
 
     char **symbollist = backtrace_symbols(addrlist, addrlen);
+    if (symbollist == nullptr) return ret; // no memory
 
     for (int i = 1 + skip; i < addrlen; i++) {
       ret.emplace_back(symbollist[i]);
@@ -501,6 +502,10 @@ namespace cmdr::debug {
     // resolve addresses into strings containing "filename(function+address)",
     // this array must be free()-ed
     char **symbollist   = backtrace_symbols(addrlist, addrlen);
+    if (symbollist == nullptr) {
+      fprintf(out, "  <no memory>\n");
+      return;
+    }
 
     // allocate string which will be filled with the demangled function name
     size_t funcnamesize = 256;
@@ -790,7 +795,7 @@ namespace cmdr::debug {
       void *trace_elems[20];
       const int trace_elem_count(backtrace(trace_elems, 20));
       char **stack_syms(backtrace_symbols(trace_elems, trace_elem_count));
-      for (int i = 0; i < trace_elem_count; ++i) {
+      for (int i = 0; stack_syms && i < trace_elem_count; ++i) {
         std::cout << stack_syms[i] << "\n";
       }
       free(stack_syms);
-- 
2.43.0


From d3d1d2022cd5afb88306b52687fceeb96ee3b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 34/49] fix: help screens depended on the help screens printed
 before, and lost the tree layout

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h |  3 ++-
 libs/cmdr11/include/cmdr11/cmdr_impl.hh   | 14 +++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index 68f16dd..a50023e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -336,7 +336,8 @@ namespace cmdr {
 
     // _pr_tree(std::cout, &pc.last_matched_cmd());
     auto c                       = cmdr::terminal::colors::colorize::create();
-    pc.last_matched_cmd().print_commands(std::cout, c, _minimal_tab_width, true, show_hidden_items, sc_mode, 0);
+    auto tab_width               = _minimal_tab_width; // for this screen only
+    pc.last_matched_cmd().print_commands(std::cout, c, tab_width, true, show_hidden_items, sc_mode, 0);
     return 0;
   }
 
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 2de2108..432ee7e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -631,10 +631,10 @@ namespace cmdr {
     bool tree_mode         = tree_arg.hit_count() > 0;
 
     std::ostringstream os1;
-    cc->print_commands(os1, c, _minimal_tab_width, true, show_hidden_items, shell_completion_mode, tree_mode ? 0 : -1);
+    auto tab_width = _minimal_tab_width; // for this screen only
+    cc->print_commands(os1, c, tab_width, true, show_hidden_items, shell_completion_mode, tree_mode ? 0 : -1);
 
     std::vector<std::ostringstream *> os2;
-    auto saved_minimal_tab_width = _minimal_tab_width;
   restart:
     const auto *trivial = cc;
     do {
@@ -653,9 +653,9 @@ namespace cmdr {
       if (!shell_completion_mode) (*os) << '\n'
                                         << tt.str() << '\n';
 
-      auto mtw = _minimal_tab_width;
-      trivial->print_flags(*os, c, _minimal_tab_width, true, show_hidden_items, shell_completion_mode, tree_mode ? 0 : -1);
-      if (mtw < _minimal_tab_width) {
+      auto mtw = tab_width;
+      trivial->print_flags(*os, c, tab_width, true, show_hidden_items, shell_completion_mode, tree_mode ? 0 : -1);
+      if (mtw < tab_width) {
         for (auto *&ptr: os2) {
           delete ptr;
         }
@@ -667,9 +667,9 @@ namespace cmdr {
       }
     } while ((trivial = trivial->owner()) != nullptr);
 
-    if (saved_minimal_tab_width < _minimal_tab_width) {
+    if (_minimal_tab_width < tab_width) {
       std::ostringstream os3;
-      cc->print_commands(os3, c, _minimal_tab_width, true, show_hidden_items, shell_completion_mode, -1);
+      cc->print_commands(os3, c, tab_width, true, show_hidden_items, shell_completion_mode, tree_mode ? 0 : -1);
       ss << os3.str();
     } else {
       ss << os1.str();
-- 
2.43.0


From 16e308295cc5b5f113d5a9b433f2354299cc42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 35/49] fix: help screens dropped groups whose names have the
 same sort prefix

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index f45bb65..f3eb521 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -444,9 +444,9 @@ namespace cmdr::opt {
 
   namespace detail {
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_commands) {
         auto &title = it.first;
@@ -462,9 +462,9 @@ namespace cmdr::opt {
       return dotted_key_on_keys;
     }
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_args) {
         keys.insert(it.first);
@@ -528,7 +528,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_cmd_list const &grouped_commands,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -593,7 +593,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_arg_list const &grouped_args,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -810,7 +810,7 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999; // don't wrap the long line
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_commands, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
@@ -914,7 +914,7 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999;
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_args, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
-- 
2.43.0


From 04f5c122a71a2bc02864b65584880a5a65b82a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 36/49] fix: help screens never ended on terminals as wide as
 the tab stop

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index f3eb521..a9f50f7 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -640,7 +640,8 @@ namespace cmdr::opt {
                                  int wt_real) {
       std::ostringstream ss;
       auto d  = desc;
-      auto rw = (std::size_t)((std::size_t)(tw <= 0 ? 1000 : tw) - wt_real - 2);
+      // no room for the description: leave the wrapping to the terminal
+      auto rw = tw > wt_real + 2 ? (std::size_t)(tw - wt_real - 2) : (std::size_t) 1000;
       int w   = 0;
       do {
         if (w++ != 0) {
-- 
2.43.0


From 07cfb06b24b485071e2d5825e2c8fdb8f92afe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 37/49] fix: creating an app without author or copyright, as
 the defaults have it, threw logic_error

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index a50023e..2f84354 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -37,8 +37,8 @@ namespace cmdr {
                   const_chars examples_)
       : _name(name)
       , _version(version)
-      , _author(author)
-      , _copyright(copyright)
+      , _author(author ? author : "")
+      , _copyright(copyright ? copyright : "")
   // , _description(description)
   // , _examples(examples)
   {
-- 
2.43.0


From 9591f967723864316a2aed28e1743f46a2d6ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 38/49] fix: keys of flags were silently cut short when memory
 ran out

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index b6a4671..beea29a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -189,18 +189,18 @@ namespace cmdr::string {
   }
 
   inline std::string join(string_array const &array, char delimiter = ',', char before = '\0', char after = '\0') {
-    std::stringstream ss;
+    std::string ss; // not a stream: that would lose parts silently if there is no memory
     int i = 0;
     if (before != '\0')
-      ss << before;
+      ss += before;
     for (auto const &it: array) {
       if (i++ > 0)
-        ss << delimiter;
-      ss << it;
+        ss += delimiter;
+      ss += it;
     }
     if (after != '\0')
-      ss << after;
-    return ss.str();
+      ss += after;
+    return ss;
   }
 
   inline std::string join(string_array const &array, const_chars delimiter = ",", const_chars before = nullptr, const_chars after = nullptr) {
-- 
2.43.0


From 2a026e176d7120db67980ab644e566f044b697df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 39/49] fix: slots of a signal after the first got moved-from
 values, operator() did not compile

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index e905b09..e166a95 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1207,13 +1207,21 @@ namespace cmdr::util {
      */
     signal &emit(SignalSubjects &&...event_or_subjects) {
       for (auto &fn: _callbacks)
-        fn(std::move(event_or_subjects)...);
+        fn(one_more<SignalSubjects>(event_or_subjects)...);
       return (*this);
     }
-    signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(event_or_subjects...); }
+    signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(std::forward<SignalSubjects>(event_or_subjects)...); }
 
   private:
     void clear() {}
+    // a slot may take what it gets, the next slot needs it too
+    template<typename S>
+    static decltype(auto) one_more(S &s) {
+      if constexpr (std::is_copy_constructible_v<S>)
+        return S(s);
+      else
+        return std::move(s);
+    }
 
   private:
     std::vector<FN> _callbacks{};
-- 
2.43.0


From 6cc7f73524adade0533a7abcfdc838598b969fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 40/49] fix: connecting a slot while a signal is emitted freed
 the slot being called

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index e166a95..6158420 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1167,7 +1167,7 @@ namespace cmdr::util {
     void clear() {}
 
   private:
-    std::vector<FN> _callbacks{};
+    std::list<FN> _callbacks{}; // the one being called may add others
   };
 
 } // namespace cmdr::util
@@ -1224,7 +1224,7 @@ namespace cmdr::util {
     }
 
   private:
-    std::vector<FN> _callbacks{};
+    std::list<FN> _callbacks{}; // the one being called may add others
   };
 
 } // namespace cmdr::util
-- 
2.43.0


From 6601c4e030dea3cdd11bb559ca7d32dfeebd26ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 41/49] fix: tasks that return a value and const callables
 could not be queued in a thread_pool

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 43475f4..0f7d89a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -465,7 +465,7 @@ namespace cmdr::pool {
       // std::packaged_task<R()> p(std::move(task));
       auto r = p.get_future();
       // _tasks.push_back(std::move(p));
-      _tasks.emplace_back(std::move(p));
+      _tasks.emplace_back(std::packaged_task<void()>(std::move(p)));
       pool_debug("queue_task.");
       std::this_thread::yield();
       return r;
@@ -473,11 +473,11 @@ namespace cmdr::pool {
 
     template<class F, class R = std::invoke_result_t<F>>
     std::future<R> queue_task(F const &task) {
-      auto p = std::packaged_task<R()>(std::forward<F>(task));
+      auto p = std::packaged_task<R()>(task);
       // std::packaged_task<R()> p(std::move(task));
       auto r = p.get_future();
       // _tasks.push_back(std::move(p));
-      _tasks.emplace_back(std::move(p));
+      _tasks.emplace_back(std::packaged_task<void()>(std::move(p)));
       pool_debug("queue_task (copy).");
       std::this_thread::yield();
       return r;
-- 
2.43.0


From 62454ba47d961a475b7fefd5ecd0229d82f400ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 42/49] fix: registerer removed another observer when the
 caller's pointer had been assigned meanwhile

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 6158420..a5492b7 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1122,14 +1122,15 @@ namespace cmdr::util {
   struct registerer {
     using _Observable = observable<S, AutoLock, CNS, Observer>;
     _Observable &_observable;
-    typename _Observable::observer_t_shared &_observer;
+    typename _Observable::observer_t _observer; // the one registered here, whatever becomes of the caller's pointer
     registerer(_Observable &observable, typename _Observable::observer_t_shared &observer)
         : _observable(observable)
         , _observer(observer) {
-      _observable += _observer;
+      _observable += observer;
     }
     ~registerer() {
-      _observable -= _observer;
+      if (auto spt = _observer.lock())
+        _observable -= spt;
     }
   };
 
-- 
2.43.0


From 21ade60b4bd1b01f2ccbc8b8e7a088b843738fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 43/49] fix: subtree() of a store read out of bounds for an
 empty prefix

---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 6e7bc99..252552f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -50,6 +50,7 @@ namespace cmdr::vars {
     std::shared_lock<std::shared_mutex> lock(mutex_);
 
     auto vec = string::split(prefix, '.');
+    if (vec.empty() || prefix[std::strlen(prefix) - 1] == '.') vec.emplace_back(); // a part may be empty
     std::size_t upr = vec.size() - 1, idx = 0;
     auto key = vec[idx];
     auto ptr = this;
-- 
2.43.0


From fafd40c8ea5b0772e4fd56902eadabd29bd462d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 44/49] fix: lookups in the store took another key when memory
 ran out while theirs was composed

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh   |  8 +++---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 32 ++++++++-------------
 2 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index beea29a..ace6372 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -139,11 +139,11 @@ namespace cmdr::string {
   }
 
   inline string_array split(const std::string &s, char delimiter = '\n') {
-    std::stringstream ss(s);
-    std::string item;
     std::vector<std::string> elems;
-    while (std::getline(ss, item, delimiter)) {
-      elems.push_back(std::move(item));
+    for (size_t a = 0, b; a < s.length(); a = b + 1) {
+      b = s.find(delimiter, a);
+      if (b == std::string::npos) b = s.length();
+      elems.push_back(s.substr(a, b - a));
     }
     return elems;
   }
diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 252552f..5364d0f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -92,45 +92,37 @@ namespace cmdr::vars {
 
   template<class T, class small_string>
   inline T &nodeT<T, small_string>::_get_raw_p(std::string const &prefix, std::string const &key) {
-    std::stringstream sk;
-    if (!prefix.empty()) sk << prefix << '.';
-    sk << key;
-    return _get_raw(sk.str());
+    return _get_raw(prefix.empty() ? key : prefix + '.' + key);
   }
 
   template<class T, class small_string>
   inline T const &nodeT<T, small_string>::_get_raw_p(std::string const &prefix, std::string const &key) const {
-    std::stringstream sk;
-    if (!prefix.empty()) sk << prefix << '.';
-    sk << key;
-    return _get_raw(sk.str());
+    return _get_raw(prefix.empty() ? key : prefix + '.' + key);
   }
 
   template<class T, class small_string>
   inline T &nodeT<T, small_string>::_get_raw_p(char const *prefix, char const *key) {
-    std::stringstream sk;
-    if (prefix && prefix[0] != 0) sk << prefix << '.';
-    sk << key;
-    return _get_raw(sk.str());
+    std::string sk;
+    if (prefix && prefix[0] != 0) sk.append(prefix).append(1, '.');
+    return _get_raw(sk.append(key));
   }
 
   template<class T, class small_string>
   inline T const &nodeT<T, small_string>::_get_raw_p(char const *prefix, char const *key) const {
-    std::stringstream sk;
-    if (prefix && prefix[0] != 0) sk << prefix << '.';
-    sk << key;
-    return _get_raw(sk.str());
+    std::string sk;
+    if (prefix && prefix[0] != 0) sk.append(prefix).append(1, '.');
+    return _get_raw(sk.append(key));
   }
 
 
   template<class T, class small_string>
   inline bool nodeT<T, small_string>::has(char const *prefix, char const *key) const {
-    std::stringstream sk;
-    if (prefix && prefix[0] != 0) sk << prefix << '.';
-    sk << key;
+    std::string sk;
+    if (prefix && prefix[0] != 0) sk.append(prefix).append(1, '.');
+    sk.append(key);
 
     std::shared_lock<std::shared_mutex> lock(mutex_);
-    auto it = _indexes.find(sk.str());
+    auto it = _indexes.find(sk);
     if (it != _indexes.end()) {
       return true;
     }
-- 
2.43.0


From 97bec40c7548a86eadb48b5873230afef7f4d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 45/49] fix: walking or dumping the store while another thread
 sets a key read freed memory

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh    | 5 +++++
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 8 ++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 08fe8c3..9743f7e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -719,6 +719,11 @@ namespace cmdr::vars {
     node_pointer _parent{};
     mutable std::shared_mutex mutex_{};
 
+    std::vector<std::pair<key_type, node_pointer>> children() const {
+      std::shared_lock<std::shared_mutex> lock(mutex_);
+      return {_children.begin(), _children.end()};
+    }
+
   public:
     template<class A, typename... Args,
              std::enable_if_t<
diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 5364d0f..79b54eb 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -140,7 +140,7 @@ namespace cmdr::vars {
     // auto fg = get_app()._dim_text_fg;
     // auto dim = get_app()._dim_text_dim;
 
-    for (auto const &[k, v]: _children) {
+    for (auto const &[k, v]: children()) {
       std::stringstream ss;
       ss << *(v.get());
 
@@ -169,7 +169,7 @@ namespace cmdr::vars {
     // auto fg = get_app()._dim_text_fg;
     // auto dim = get_app()._dim_text_dim;
 
-    for (auto &[k, v]: _children) {
+    for (auto &[k, v]: children()) {
       std::string dotted_key;
       {
         std::ostringstream dotted_key_ss;
@@ -249,7 +249,9 @@ namespace cmdr::vars {
           std::unordered_map<K, V> const &um,
           std::function<bool(std::pair<K, V> const &)> const &on_filter,
           Comp pred) const {
+    std::shared_lock<std::shared_mutex> lock(mutex_);
     std::map<K, V> m(um.begin(), um.end(), pred);
+    lock.unlock();
     map_streamer<K, V> ms{os, c, dim_text_fg, dim_text_dim, on_filter};
     std::for_each(m.begin(), m.end(), ms);
   }
@@ -261,7 +263,9 @@ namespace cmdr::vars {
           std::unordered_map<K, V> const &um,
           std::function<void(std::pair<K, V> const &)> const &cb,
           Comp comp) const {
+    std::shared_lock<std::shared_mutex> lock(mutex_);
     std::map<K, V> m(um.begin(), um.end(), comp);
+    lock.unlock();
     std::for_each(m.begin(), m.end(), cb);
   }
 
-- 
2.43.0


From bda7fecaae7d541345d485e3c309dc8016f9e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 46/49] fix: arrays, complex numbers and 8-bit integers were
 read wrongly from command lines and env vars

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 83 +++++++++++++++---------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 9743f7e..bb41a2e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -273,48 +273,67 @@ namespace cmdr::vars {
 
     template<class T>
     static bool parse_complex(std::istream &is, std::complex<T> &a) {
-      bool ok;
-      std::string s;
-      ok = string::read_until(is, s, "+");
-      {
-        std::stringstream ss(s);
-        T t;
-        ss >> t;
-        a.real(t);
+      T r{}, i{};
+      is >> r;
+      int ch = is.good() ? is.peek() : EOF;
+      if (ch == 'i') { // without a real part
+        std::swap(r, i);
+      } else if (ch == '+' || ch == '-') {
+        if (ch == '+') is.get();
+        is >> i;
       }
-      if (ok) {
-        ok = string::read_until(is, s, "i");
-        std::stringstream ss(s);
-        T t;
-        ss >> t;
-        a.imag(t);
+      if (is.good() && is.peek() == 'i') {
+        is.get();
+        is.peek(); // find the end, as reading a number does
       }
+      a.real(r);
+      a.imag(i);
       return true;
     }
 
     template<class T>
     static bool parse_array(std::istream &is, std::vector<T> &a) {
-      bool ok;
-      char ch;
       std::string s;
-      is >> ch;
-      if (ch != '[') s += ch;
-      while ((ok = string::read_until(is, s, ",")) == true) {
+      std::getline(is, s);
+      s = string::strip(string::trim(s), "[", "]");
+      if (s.empty()) return true;
+      std::stringstream items(s);
+      while (std::getline(items, s, ',')) {
         std::stringstream ss(s);
-        T t;
-        ss >> t;
+        T t{};
+        parse_item(ss, t);
         a.push_back(t);
       }
-
-      std::getline(is, s);
-      s = string::strip(s, "", "]");
-      T t;
-      std::stringstream ss(s);
-      ss >> t;
-      a.push_back(t);
       return true;
     }
 
+    template<class T>
+    static void parse_item(std::istream &is, T &t) {
+      if constexpr (std::is_same_v<T, bool>)
+        parse_bool(is, t);
+      else if constexpr (std::is_integral_v<T> && sizeof(T) == 1)
+        parse_int8(is, t);
+      else if constexpr (std::is_same_v<T, std::string>)
+        std::getline(is, t);
+      else
+        is >> t;
+    }
+
+    /**
+     * @brief int8_t and uint8_t are numbers here, not characters
+     */
+    template<class T>
+    static void parse_int8(std::istream &is, T &x) {
+      int i{};
+      is >> i;
+      using limits = std::numeric_limits<T>;
+      if (i < limits::min() || i > limits::max()) {
+        i = i < 0 ? limits::min() : limits::max();
+        is.setstate(std::ios::failbit); // as it is for the other integers
+      }
+      x = static_cast<T>(i);
+    }
+
     static bool parse_void(std::istream &is) {
       std::string tmp;
       if (is.peek() == '{') {
@@ -452,12 +471,12 @@ namespace cmdr::vars {
         detail::from_any_visitor<void>([](std::istream &is) { parse_void(is); }),
             detail::from_any_visitor<bool>([](std::istream &is, bool &x) { parse_bool(is, x); }),
             detail::from_any_visitor<int>([](std::istream &is, int &x) { is >> x; }),
-            detail::from_any_visitor<int8_t>([](std::istream &is, int8_t &x) { is >> x; }),
+            detail::from_any_visitor<int8_t>([](std::istream &is, int8_t &x) { parse_int8(is, x); }),
             detail::from_any_visitor<int16_t>([](std::istream &is, int16_t &x) { is >> x; }),
             detail::from_any_visitor<int32_t>([](std::istream &is, int32_t &x) { is >> x; }),
             detail::from_any_visitor<int64_t>([](std::istream &is, int64_t &x) { is >> x; }),
             detail::from_any_visitor<unsigned>([](std::istream &is, unsigned &x) { is >> x; }),
-            detail::from_any_visitor<uint8_t>([](std::istream &is, uint8_t &x) { is >> x; }),
+            detail::from_any_visitor<uint8_t>([](std::istream &is, uint8_t &x) { parse_int8(is, x); }),
             detail::from_any_visitor<uint16_t>([](std::istream &is, uint16_t &x) { is >> x; }),
             detail::from_any_visitor<uint32_t>([](std::istream &is, uint32_t &x) { is >> x; }),
             detail::from_any_visitor<uint64_t>([](std::istream &is, uint64_t &x) { is >> x; }),
@@ -520,12 +539,12 @@ namespace cmdr::vars {
           detail::to_any_visitor<void>([](std::ostream &os) { os << "{}"; }),
           detail::to_any_visitor<bool>([](std::ostream &os, bool x) { os << std::boolalpha << x; }),
           detail::to_any_visitor<int>([](std::ostream &os, int x) { os << x; }),
-          detail::to_any_visitor<int8_t>([](std::ostream &os, int8_t x) { os << x; }),
+          detail::to_any_visitor<int8_t>([](std::ostream &os, int8_t x) { os << +x; }),
           detail::to_any_visitor<int16_t>([](std::ostream &os, int16_t x) { os << x; }),
           detail::to_any_visitor<int32_t>([](std::ostream &os, int32_t x) { os << x; }),
           detail::to_any_visitor<int64_t>([](std::ostream &os, int64_t x) { os << x; }),
           detail::to_any_visitor<unsigned>([](std::ostream &os, unsigned x) { os << x; }),
-          detail::to_any_visitor<uint8_t>([](std::ostream &os, uint8_t x) { os << x; }),
+          detail::to_any_visitor<uint8_t>([](std::ostream &os, uint8_t x) { os << +x; }),
           detail::to_any_visitor<uint16_t>([](std::ostream &os, uint16_t x) { os << x; }),
           detail::to_any_visitor<uint32_t>([](std::ostream &os, uint32_t x) { os << x; }),
           detail::to_any_visitor<uint64_t>([](std::ostream &os, uint64_t x) { os << x; }),
-- 
2.43.0


From 1573b296434288e94e0f70d6edc80e406bead425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 47/49] fix: a flag whose value cannot be parsed was set to
 zero and counted as given

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 53 +++++++++++++------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 432ee7e..8c9c4ac 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -84,7 +84,6 @@ namespace cmdr {
   app::process_flag(opt::types::parsing_context &pc, int argc, char *argv[], int leading_chars,
                     std::function<arg_matching_result(opt::types::parsing_context &)> const &matcher) {
     pc.title = pc.title.substr(leading_chars);
-    bool value_parsed{};
     bool extra_argv{};
     auto rc{opt::Action::Continue};
     // int matched_length = 0;
@@ -108,10 +107,12 @@ namespace cmdr {
           typ != typeid(bool) && typ != typeid(void)) {
 
         // try solving the following input as value of this matched arg.
+        int equals{}; // the '=' before the value
         auto remains          = pc.title.substr(pc.pos + amr.matched_length);
         auto remains_orig_len = remains.length();
         if (remains[0] == '=') {
           remains = remains.substr(1);
+          equals  = 1;
         }
         remains = string::strip_quotes(remains);
         if (remains.empty() && pc.index + 1 < argc) {
@@ -124,15 +125,31 @@ namespace cmdr {
         opt::arg::var_type val = std::make_shared<vars::variable>(*amr.obj->default_value());
         auto xb                 = sst.tellg();
         sst >> *val.get();
-        auto xe      = sst.tellg();
-        int read     = static_cast<int>(xe - xb);
-        value_parsed = read > 0 || sst.eof();
-        if (!value_parsed) {
+        // a string may be empty, anything else must be there and in range
+        bool const failed = sst.fail() && typ != typeid(std::string) && typ != typeid(char const *);
+        auto xe           = sst.tellg();
+        int read          = static_cast<int>(xe - xb);
+        if (failed || (read <= 0 && !sst.eof())) {
+          // cannot parse the value to arg, ignore it and continue for the next arg
           if (extra_argv) {
             --pc.index; // restore the parsing pointer
           }
-        } else if (read > 0) {
-          amr.matched_length += read;
+          amr.obj->hit_count(amr.obj->hit_count() - 1);
+          if (amr.obj->hit_count() < 1) amr.obj->bas::forget_hits();
+          {
+            std::ostringstream osn;
+            std::ostringstream os1;
+            os1 << vars::store::_c.bold().s(amr.matched_str);
+            osn << vars::store::_c.bold().s("[!]")
+                << vars::store::_c.fg(terminal::colors::colorize::Colors256::Red).s(" cannot parse the value of the flag ")
+                << std::quoted(os1.str());
+            std::cerr << osn.str() << '\n';
+          }
+          return opt::Action::Continue;
+        }
+
+        if (read > 0) {
+          amr.matched_length += read + (extra_argv ? 0 : equals);
         } else if (!extra_argv) {
           amr.matched_length += (int) remains_orig_len;
         }
@@ -144,7 +161,6 @@ namespace cmdr {
 
       } else if (typ == typeid(bool)) {
         pc.add_matched_arg(amr.obj);
-        value_parsed = true;
 
         bool v{true};
         auto ch = pc.title[pc.pos + amr.matched_length];
@@ -164,7 +180,6 @@ namespace cmdr {
 
       } else {
         pc.add_matched_arg(amr.obj);
-        value_parsed = true;
 
         auto value   = std::make_shared<vars::variable>(true);
         get_app().on_arg_matched(amr.obj, value);
@@ -184,24 +199,10 @@ namespace cmdr {
 
       pc.pos += amr.matched_length;
 
-      if (value_parsed) {
-        if (pc.pos < pc.title.length()) {
-          goto next_combined;
-        }
-        return rc;
-      }
-
-      // cannot parse the value to arg, ignore it and continue for the next arg
-      {
-        std::ostringstream osn;
-        std::ostringstream os1;
-        os1 << vars::store::_c.bold().s(amr.matched_str);
-        osn << vars::store::_c.bold().s("[!]")
-            << vars::store::_c.fg(terminal::colors::colorize::Colors256::Red).s(" cannot parse the value of the flag ")
-            << std::quoted(os1.str());
-        std::cerr << osn.str() << '\n';
+      if (pc.pos < pc.title.length()) {
+        goto next_combined;
       }
-      return opt::Action::Continue;
+      return rc;
     }
 
     if (amr.should_abort) {
-- 
2.43.0


From 7279ea4a30557abe754c161ce4298b3b2a56eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 48/49] fix: env vars that cannot be parsed set their options
 to zero, and a bare y or n failed

---
 libs/cmdr11/include/cmdr11/cmdr_app.hh   |   1 +
 libs/cmdr11/include/cmdr11/cmdr_impl.hh  |  23 +++--
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 119 +++--------------------
 3 files changed, 31 insertions(+), 112 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index 1a03e6a..04f4a4b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -336,6 +336,7 @@ namespace cmdr {
     void prepare_env_vars();
     void load_externals();
     void apply_env_vars();
+    static bool parse_text(char const *text, vars::variable &v);
     int after_run(opt::Action rc, opt::types::parsing_context &pc, int argc, char *argv[]);
     int internal_action(opt::Action rc, opt::types::parsing_context &pc, int argc, char *argv[]);
     int invoke_command(opt::cmd &cc, string_array const &remain_args, opt::types::parsing_context &pc);
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 8c9c4ac..94edf82 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -812,6 +812,18 @@ namespace cmdr {
     on_loading_externals();
   }
 
+  inline bool app::parse_text(char const *text, vars::variable &v) {
+    bool const str = v.type() == typeid(std::string) || v.type() == typeid(char const *);
+    auto old       = v.underlying_value();
+    std::stringstream sst(text);
+    sst >> v;
+    if (sst.fail() && !str) { // not a value of that type: as if there were none
+      v.underlying_value() = std::move(old);
+      return false;
+    }
+    return true;
+  }
+
   inline void app::apply_env_vars() {
     cmdr_verbose_debug("   - apply_env_vars ...");
     // auto env vars
@@ -829,8 +841,7 @@ namespace cmdr {
       }
 #else
       char *ptr = std::getenv(ks.c_str());
-      if (ptr != nullptr) {
-        std::stringstream(ptr) >> (*val.second);
+      if (ptr != nullptr && parse_text(ptr, *val.second)) {
         cmdr_verbose_debug("      ENV[%s (%s)] => %s", ks.c_str(), val.first.c_str(), ptr);
       }
 #endif
@@ -853,10 +864,10 @@ namespace cmdr {
 #else
         char *ptr = std::getenv(ev.c_str());
 #endif
-        if (ptr != nullptr) {
-          auto dk = a.dotted_key();
-          auto &v = _store.get_raw(dk);
-          std::stringstream(ptr) >> v;
+        if (ptr == nullptr) continue;
+        auto dk = a.dotted_key();
+        auto &v = _store.get_raw(dk);
+        if (parse_text(ptr, v)) {
           cmdr_verbose_debug("      ENV[%s (%s)] => %s / %s", ev.c_str(), dk.c_str(), ptr, _store.get_raw(dk).as_string().c_str());
           a.env_value(v);
           a.update_hit_count_from_env(ev, 1);
diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index bb41a2e..aeea5cf 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -15,6 +15,7 @@
 #include <variant>
 
 #include <cassert>
+#include <cctype>
 #include <cstdio>
 #include <cstdlib>
 #include <iomanip>
@@ -349,118 +350,24 @@ namespace cmdr::vars {
      * @return
      */
     static bool parse_bool(std::istream &is, bool &x) {
-      int ch;
-      ch = is.peek();
-      if (ch == '0') {
-        x = false;
-        is.get();
-        return true;
-      }
-      if (ch == '1') {
-        x = true;
-        is.get();
-        return true;
-      }
-
-      if (ch == 't' || ch == 'T') {
-        is.get();
-        ch = is.peek();
-        if (ch == 'r' || ch == 'R') {
-          is.get();
-          ch = is.peek();
-          if (ch == 'u' || ch == 'U') {
-            is.get();
-            ch = is.peek();
-            if (ch == 'e' || ch == 'E') {
-              is.get();
-              x = true;
-              return true;
-            }
-            is.unget();
-          }
-          is.unget();
-        } else {
-          x = true;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'y' || ch == 'Y') {
-        is.get();
-        is.get();
-        ch = is.peek();
-        if (ch == 'e' || ch == 'E') {
-          is.get();
-          ch = is.peek();
-          if (ch == 's' || ch == 'S') {
-            is.get();
-            x = true;
-            return true;
-          }
-          is.unget();
-        } else {
+      std::string word;
+      int ch = is.peek();
+      if (ch == '0' || ch == '1')
+        word += static_cast<char>(is.get());
+      else
+        for (; ch != std::istream::traits_type::eof() && std::isalpha(ch); ch = is.peek())
+          word += static_cast<char>(std::tolower(is.get()));
+      for (auto const *yes : {"1", "t", "true", "y", "yes", "on"})
+        if (word == yes) {
           x = true;
           return true;
         }
-        is.unget();
-      } else if (ch == 'f' || ch == 'F') {
-        is.get();
-        ch = is.peek();
-        if (ch == 'a' || ch == 'A') {
-          is.get();
-          ch = is.peek();
-          if (ch == 'l' || ch == 'L') {
-            is.get();
-            ch = is.peek();
-            if (ch == 's' || ch == 'S') {
-              is.get();
-              ch = is.peek();
-              if (ch == 'e' || ch == 'E') {
-                is.get();
-                x = false;
-                return true;
-              }
-              is.unget();
-            }
-            is.unget();
-          }
-          is.unget();
-        } else {
-          x = false;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'n' || ch == 'N') {
-        is.get();
-        is.get();
-        ch = is.peek();
-        if (ch == 'o' || ch == 'O') {
-          is.get();
+      for (auto const *no : {"0", "f", "false", "n", "no", "off"})
+        if (word == no) {
           x = false;
           return true;
         }
-        x = false;
-        return true;
-
-      } else if (ch == 'o' || ch == 'O') {
-        is.get();
-        ch = is.peek();
-        if (ch == 'n' || ch == 'N') {
-          is.get();
-          x = true;
-          return true;
-        }
-        if (ch == 'f' || ch == 'F') {
-          is.get();
-          ch = is.peek();
-          if (ch == 'f' || ch == 'F') {
-            is.get();
-            x = false;
-            return true;
-          }
-          is.unget();
-        }
-        is.unget();
-      }
+      is.setstate(std::ios::failbit);
       return false;
     }
 
-- 
2.43.0


From 5dcc6265baeecfc409a76e9e92abcb1322bd9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 49/49] fix: words and env vars that only begin with a number
 were taken as that number

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh  | 7 +++++--
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 94edf82..153ab17 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -126,9 +126,12 @@ namespace cmdr {
         auto xb                 = sst.tellg();
         sst >> *val.get();
         // a string may be empty, anything else must be there and in range
-        bool const failed = sst.fail() && typ != typeid(std::string) && typ != typeid(char const *);
+        bool const str    = typ == typeid(std::string) || typ == typeid(char const *);
+        bool failed       = sst.fail() && !str;
         auto xe           = sst.tellg();
         int read          = static_cast<int>(xe - xb);
+        // a word of its own must be a value as a whole
+        if (extra_argv && !str && !failed) failed = !sst.eof() && !(sst >> std::ws).eof();
         if (failed || (read <= 0 && !sst.eof())) {
           // cannot parse the value to arg, ignore it and continue for the next arg
           if (extra_argv) {
@@ -817,7 +820,7 @@ namespace cmdr {
     auto old       = v.underlying_value();
     std::stringstream sst(text);
     sst >> v;
-    if (sst.fail() && !str) { // not a value of that type: as if there were none
+    if (!str && (sst.fail() || !(sst >> std::ws).eof())) { // not a value of that type: as if there were none
       v.underlying_value() = std::move(old);
       return false;
     }
diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index aeea5cf..ed28aee 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -303,6 +303,8 @@ namespace cmdr::vars {
         std::stringstream ss(s);
         T t{};
         parse_item(ss, t);
+        if constexpr (std::is_arithmetic_v<T>)
+          if (ss.fail() || !(ss >> std::ws).eof()) is.setstate(std::ios::failbit);
         a.push_back(t);
       }
       return true;
-- 
2.43.0

