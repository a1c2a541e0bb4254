From 09a7f105e249c425228690796813c1f69377ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 01/36] fix: run parallel loops and thread pools when the
 processor count is unknown

std::thread::hardware_concurrency() returns 0 if the value is not computable.
Parallel loops then silently ran no job and thread_pool::execute never
returned.
---
 include/utl/parallel_for.h | 8 ++++++--
 include/utl/thread_pool.h  | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 5d75804..0f4e6e7 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -32,7 +32,9 @@ inline errors_t parallel_for_run_threadlocal(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  // zero means: unknown
+  auto const n_threads = std::max(1U, std::thread::hardware_concurrency());
+  for (auto i = 0u; i < n_threads; ++i) {
     threads.emplace_back([&]() {
       auto threadlocal = ThreadLocal{};
 
@@ -77,7 +79,9 @@ inline errors_t parallel_for_run(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  // zero means: unknown
+  auto const n_threads = std::max(1U, std::thread::hardware_concurrency());
+  for (auto i = 0u; i < n_threads; ++i) {
     threads.emplace_back([&]() {
       while (!quit) {
         auto const idx = counter.fetch_add(1);
diff --git a/include/utl/thread_pool.h b/include/utl/thread_pool.h
index dfaec53..743a518 100644
--- a/include/utl/thread_pool.h
+++ b/include/utl/thread_pool.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <condition_variable>
+#include <algorithm>
 #include <atomic>
 #include <functional>
 #include <mutex>
@@ -21,7 +22,9 @@ struct thread_pool {
         stop_{false},
         job_count_{0},
         counter_{0} {
-    for (auto i = 0U; i < std::thread::hardware_concurrency(); ++i) {
+    // zero means: unknown
+    auto const n_threads = std::max(1U, std::thread::hardware_concurrency());
+    for (auto i = 0U; i < n_threads; ++i) {
       threads_.emplace_back([&, this] {
         initializer_();
         while (true) {
-- 
2.43.0


From 8ef5a2f2d529e3a2f57d17864ca45d4048e45808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 02/36] fix: report the failed job's index in parallel loop
 errors

---
 include/utl/parallel_for.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 0f4e6e7..a7d7f1a 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -49,7 +49,7 @@ inline errors_t parallel_for_run_threadlocal(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(idx, std::current_exception());
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
@@ -94,7 +94,7 @@ inline errors_t parallel_for_run(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(idx, std::current_exception());
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
-- 
2.43.0


From 564a481eca2ea5c6882d166393140c7da60e188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 03/36] fix: join started workers when a thread cannot be
 started

---
 include/utl/parallel_for.h | 21 +++++++++++++++++++--
 include/utl/thread_pool.h  | 19 +++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index a7d7f1a..542f8d0 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -20,6 +20,23 @@ struct noop_progress_update {
   void operator()(size_t const) {}
 };
 
+namespace detail {
+
+// If the thread cannot be started: ends and joins those already started.
+template <typename Fun>
+void start_worker(std::vector<std::thread>& threads, std::atomic<bool>& quit,
+                  Fun&& fun) {
+  try {
+    threads.emplace_back(std::forward<Fun>(fun));
+  } catch (...) {
+    quit = true;
+    std::for_each(begin(threads), end(threads), [](auto& t) { t.join(); });
+    throw;
+  }
+}
+
+}  // namespace detail
+
 template <typename ThreadLocal, typename Fun,
           typename ProgressUpdateFn = noop_progress_update>
 inline errors_t parallel_for_run_threadlocal(
@@ -35,7 +52,7 @@ inline errors_t parallel_for_run_threadlocal(
   // zero means: unknown
   auto const n_threads = std::max(1U, std::thread::hardware_concurrency());
   for (auto i = 0u; i < n_threads; ++i) {
-    threads.emplace_back([&]() {
+    detail::start_worker(threads, quit, [&]() {
       auto threadlocal = ThreadLocal{};
 
       while (!quit) {
@@ -82,7 +99,7 @@ inline errors_t parallel_for_run(
   // zero means: unknown
   auto const n_threads = std::max(1U, std::thread::hardware_concurrency());
   for (auto i = 0u; i < n_threads; ++i) {
-    threads.emplace_back([&]() {
+    detail::start_worker(threads, quit, [&]() {
       while (!quit) {
         auto const idx = counter.fetch_add(1);
         if (idx >= job_count) {
diff --git a/include/utl/thread_pool.h b/include/utl/thread_pool.h
index 743a518..80a34dd 100644
--- a/include/utl/thread_pool.h
+++ b/include/utl/thread_pool.h
@@ -25,7 +25,7 @@ struct thread_pool {
     // zero means: unknown
     auto const n_threads = std::max(1U, std::thread::hardware_concurrency());
     for (auto i = 0U; i < n_threads; ++i) {
-      threads_.emplace_back([&, this] {
+      start_worker([&, this] {
         initializer_();
         while (true) {
           {
@@ -57,7 +57,21 @@ struct thread_pool {
     }
   }
 
-  ~thread_pool() {
+  ~thread_pool() { stop(); }
+
+private:
+  // If the thread cannot be started: ends and joins those already started.
+  template <typename Fn>
+  void start_worker(Fn&& fn) {
+    try {
+      threads_.emplace_back(std::forward<Fn>(fn));
+    } catch (...) {
+      stop();
+      throw;
+    }
+  }
+
+  void stop() {
     {
       std::unique_lock<std::mutex> lk(mutex_);
       stop_ = true;
@@ -66,6 +80,7 @@ struct thread_pool {
     std::for_each(begin(threads_), end(threads_), [](auto& t) { t.join(); });
   }
 
+public:
   thread_pool(thread_pool const&) noexcept = delete;  // NOLINT
   thread_pool& operator=(thread_pool const&) noexcept = delete;  // NOLINT
   thread_pool(thread_pool&&) noexcept = delete;  // NOLINT
-- 
2.43.0


From e49b7249bbeaa1a0598c943244ceb8d1134b2693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 04/36] fix: reject a thread pool round submitted before the
 previous one began

---
 include/utl/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/thread_pool.h b/include/utl/thread_pool.h
index 80a34dd..b606a11 100644
--- a/include/utl/thread_pool.h
+++ b/include/utl/thread_pool.h
@@ -93,7 +93,7 @@ public:
 
     {
       std::unique_lock<std::mutex> lk(mutex_);
-      verify(threads_active_ == 0,
+      verify(threads_active_ == 0 && counter_ >= job_count_,
              "thread_pool::execute: some threads already active");
       counter_ = 0;
       job_count_ = job_count;
-- 
2.43.0


From 6ea9874ee7d17bd70d0af587605ff071d4bf1ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 05/36] fix: leave the thread pool usable when a round's
 function cannot be copied

---
 include/utl/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/thread_pool.h b/include/utl/thread_pool.h
index b606a11..17ad336 100644
--- a/include/utl/thread_pool.h
+++ b/include/utl/thread_pool.h
@@ -95,9 +95,9 @@ public:
       std::unique_lock<std::mutex> lk(mutex_);
       verify(threads_active_ == 0 && counter_ >= job_count_,
              "thread_pool::execute: some threads already active");
+      fn_ = std::move(fn);
       counter_ = 0;
       job_count_ = job_count;
-      fn_ = fn;
     }
 
     cv_.notify_all();
-- 
2.43.0


From 52ead99a25927ba98ec44428ece0c7b45a50697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 06/36] fix: keep the progress output a number if the input
 maximum is zero

---
 src/progress_tracker.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 33b2c59..0ac5f1c 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -5,6 +5,7 @@
 #endif
 
 #include <algorithm>
+#include <cmath>
 
 #include "utl/get_or_create.h"
 #include "utl/verify.h"
@@ -123,9 +124,12 @@ void progress_tracker::update_out() {
   auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
                                            static_cast<double>(in_high_));
 
-  auto const new_out = std::clamp(
+  auto new_out = std::clamp(
       out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
       out_low_, out_high_);
+  if (std::isnan(new_out)) {  // zero of zero, or an empty output range
+    new_out = out_low_;
+  }
 
   auto old_out = out_.exchange(new_out);
   if (old_out != new_out) {
-- 
2.43.0


From 947e72a74b93c6e29059b515f88680e05c2e1492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 07/36] fix: do not leave a stale progress output behind
 concurrent updates

---
 src/progress_tracker.cc | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 0ac5f1c..7b5a2bc 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -121,18 +121,25 @@ void progress_tracker::increment(size_t const inc) {
 
 void progress_tracker::update_out() {
   auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
-                                           static_cast<double>(in_high_));
-
-  auto new_out = std::clamp(
-      out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-      out_low_, out_high_);
-  if (std::isnan(new_out)) {  // zero of zero, or an empty output range
-    new_out = out_low_;
-  }
+  auto changed = false;
+  auto in = size_t{};
+  do {
+    in = in_;
+    auto const in_ratio = static_cast<float>(static_cast<double>(in) /
+                                             static_cast<double>(in_high_));
+
+    auto new_out = std::clamp(
+        out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
+        out_low_, out_high_);
+    if (std::isnan(new_out)) {  // zero of zero, or an empty output range
+      new_out = out_low_;
+    }
+
+    auto old_out = out_.exchange(new_out);
+    changed |= old_out != new_out;
+  } while (in_ != in);  // otherwise, a stale output could stay published
 
-  auto old_out = out_.exchange(new_out);
-  if (old_out != new_out) {
+  if (changed) {
     callback_(*this);
   }
 }
-- 
2.43.0


From 29185023be019c9163aa4ec6d94d6807a0a3bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 08/36] fix: write nothing once the progress display is
 switched off

---
 src/progress_tracker.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 7b5a2bc..ea1079f 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -211,10 +211,10 @@ void move_cursor_up(unsigned lines) {
 void clear_line() { std::cout << "\x1b[K"; }
 
 void global_progress_trackers::print() {
+  std::lock_guard<std::mutex> global_lock{mutex_};
   if (silent_) {
     return;
   }
-  std::lock_guard<std::mutex> global_lock{mutex_};
 
   set_vt100_mode();
   move_cursor_up(last_print_height_);
@@ -291,13 +291,17 @@ progress_tracker_ptr get_active_progress_tracker_or_activate(
 
 global_progress_bars::global_progress_bars(bool const silent) {
   auto& gp = utl::get_global_progress_trackers();
+  std::lock_guard<std::mutex> lock{gp.mutex_};
   old_silent_ = gp.silent_;
   gp.silent_ = silent;
 }
 
 global_progress_bars::~global_progress_bars() {
   auto& gp = utl::get_global_progress_trackers();
-  gp.silent_ = old_silent_;
+  {
+    std::lock_guard<std::mutex> lock{gp.mutex_};
+    gp.silent_ = old_silent_;
+  }
   gp.clear();
 }
 
-- 
2.43.0


From 3a9b3d2250fdf5e04954d4abd75a53d11997fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 09/36] fix: write each log statement's line as a whole

---
 include/utl/logging.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/utl/logging.h b/include/utl/logging.h
index 8359454..1862cd1 100644
--- a/include/utl/logging.h
+++ b/include/utl/logging.h
@@ -8,7 +8,9 @@
 #include <cstring>
 #include <ctime>
 #include <iostream>
+#include <memory>
 #include <mutex>
+#include <sstream>
 #include <string>
 
 #ifdef _MSC_VER
@@ -29,24 +31,42 @@
 namespace utl {
 
 struct log {
-  log() = default;
+  log() : line_{std::make_unique<std::ostringstream>()} {}
 
   log(log const&) = delete;
   log& operator=(log const&) = delete;
 
   log(log&&) = default;
-  log& operator=(log&&) = default;
+  log& operator=(log&& o) noexcept {
+    std::swap(line_, o.line_);
+    return *this;
+  }
 
   template <typename T>
   friend log&& operator<<(log&& l, T&& t) {
-    std::clog << std::forward<T&&>(t);
+    *l.line_ << std::forward<T&&>(t);
     return std::move(l);
   }
 
-  ~log() { std::clog << std::endl; }
+  ~log() {
+    if (line_ == nullptr) {  // moved from
+      return;
+    }
+    *line_ << '\n';
+    auto const line = line_->view();
+
+    // The whole line at once: other threads may be logging, too.
+    static std::mutex mutex;
+    std::lock_guard<std::mutex> lock{mutex};
+    std::clog.write(line.data(), static_cast<std::streamsize>(line.size()))
+        .flush();
+  }
 
   static constexpr const char* const str[]{"emrg", "alrt", "crit", "erro",
                                            "warn", "note", "info", "debg"};
+
+private:
+  std::unique_ptr<std::ostringstream> line_;
 };
 
 enum log_level { emrg, alrt, crit, err, warn, notice, info, debug };
-- 
2.43.0


From 1adb6c36b8f380d0b7012844525591eae790d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 10/36] fix: log a failed verification as one whole line

---
 include/utl/verify.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/utl/verify.h b/include/utl/verify.h
index ad889de..c18046c 100644
--- a/include/utl/verify.h
+++ b/include/utl/verify.h
@@ -38,13 +38,14 @@ std::runtime_error fail(std::string_view msg, FmtArgs... args) {
   gmtime_r(&now, &tmp);
 #endif
 
-  fmt::print(std::clog, "{} [VERIFY FAIL] ",
-             fmt::streamed(std::put_time(&tmp, "%FT%TZ")));
-  fmt::print(std::clog, fmt::runtime(msg), std::forward<FmtArgs>(args)...);
-  fmt::print(std::clog, "\n");
+  auto const message =
+      fmt::format(fmt::runtime(msg), std::forward<FmtArgs>(args)...);
 
-  return std::runtime_error{
-      fmt::format(fmt::runtime(msg), std::forward<FmtArgs>(args)...)};
+  // the whole line at once: other threads may be logging, too
+  fmt::print(std::clog, "{} [VERIFY FAIL] {}\n",
+             fmt::streamed(std::put_time(&tmp, "%FT%TZ")), message);
+
+  return std::runtime_error{message};
 }
 
 template <typename... FmtArgs>
-- 
2.43.0


From fab3da3f0e9659a734be413ba1cabd2ceb8a2f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 11/36] fix: report seek errors when determining the size of a
 file

---
 include/utl/parser/file.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index 9be1e1a..c8e18e0 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -158,7 +158,9 @@ struct file {
     auto err = std::fseek(f_, 0, SEEK_END);
     verify(!err, "fseek to SEEK_END error: {}", filename_);
     auto size = std::ftell(f_);
-    std::rewind(f_);
+    verify(size != -1, "ftell error: {}", filename_);
+    err = std::fseek(f_, 0, SEEK_SET);
+    verify(!err, "fseek to SEEK_SET error: {}", filename_);
     return static_cast<size_t>(size);
   }
 
-- 
2.43.0


From be7f8a6cc13dc45cb8309029c88d1aff50e058bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 12/36] fix: hand the data to the system before a file write
 reports success

---
 include/utl/parser/file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index c8e18e0..04dda6d 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -184,6 +184,7 @@ struct file {
   void write(void const* buf, size_t size) {
     auto bytes_written = std::fwrite(buf, 1, size, f_);
     verify(bytes_written == size, "file write error: {}", filename_);
+    verify(std::fflush(f_) == 0, "file flush error: {}", filename_);
   }
 
   operator FILE*() { return f_; }
-- 
2.43.0


From 00c3563e970374bbe7603859f0f1f3fad81dc00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 13/36] fix: release the old file and mapping when a mapped
 reader is move-assigned

---
 include/utl/parser/mmap_reader_unix.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index abf6dd4..5ba57a6 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -30,6 +30,12 @@ struct mmap_reader {
     }
 
     file& operator=(file&& o) noexcept {
+      if (this == &o) {
+        return *this;
+      }
+      if (fd_ != -1) {
+        close(fd_);
+      }
       fd_ = o.fd_;
       size_ = o.size_;
       o.fd_ = -1;
@@ -76,6 +82,12 @@ struct mmap_reader {
     }
 
     memory_map& operator=(memory_map&& o) noexcept {
+      if (this == &o) {
+        return *this;
+      }
+      if (fmap_ != nullptr && fmap_ != MAP_FAILED) {  // NOLINT
+        munmap(fmap_, f_.size_);
+      }
       f_ = std::move(o.f_);
       fmap_ = o.fmap_;
       o.fmap_ = nullptr;
-- 
2.43.0


From a4afad21da264292a062861d55571dfdddd1fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 14/36] fix: close a file once when a file object is moved

---
 include/utl/parser/file.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index 04dda6d..e3e18c7 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -135,6 +135,7 @@ struct file {
 };
 #else
 #include <cstdio>
+#include <utility>
 
 #include "utl/parser/buffer.h"
 #include "utl/verify.h"
@@ -154,6 +155,24 @@ struct file {
     f_ = nullptr;
   }
 
+  file(file const&) = delete;
+  file& operator=(file const&) = delete;
+
+  file(file&& o) noexcept
+      : f_{std::exchange(o.f_, nullptr)}, filename_{std::move(o.filename_)} {}
+
+  file& operator=(file&& o) noexcept {
+    if (this == &o) {
+      return *this;
+    }
+    if (f_ != nullptr) {
+      fclose(f_);
+    }
+    f_ = std::exchange(o.f_, nullptr);
+    filename_ = std::move(o.filename_);
+    return *this;
+  }
+
   size_t size() {
     auto err = std::fseek(f_, 0, SEEK_END);
     verify(!err, "fseek to SEEK_END error: {}", filename_);
-- 
2.43.0


From 2ca0a4ef89374c021b3d5f56aa44aef575f13c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 15/36] fix: free a buffer's old block when it is move-assigned

---
 include/utl/parser/buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 7d1ba8a..6cc786d 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -37,6 +37,10 @@ struct buffer final {
   }
 
   buffer& operator=(buffer&& o) noexcept {
+    if (this == &o) {
+      return *this;
+    }
+    std::free(buf_);
     buf_ = o.buf_;
     size_ = o.size_;
     o.buf_ = nullptr;
-- 
2.43.0


From 9a26749cfe37f20f92fa6a5ba8c19972a66b65aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 16/36] fix: do not leak the open file if a file object's name
 cannot be allocated

---
 include/utl/parser/file.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index e3e18c7..45dcaa5 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -144,7 +144,7 @@ namespace utl {
 
 struct file {
   file(char const* path, char const* mode)
-      : f_{std::fopen(path, mode)}, filename_{path} {
+      : filename_{path}, f_{std::fopen(path, mode)} {
     verify(f_ != nullptr, "unable to open file {} (mode={})", path, mode);
   }
 
@@ -159,7 +159,7 @@ struct file {
   file& operator=(file const&) = delete;
 
   file(file&& o) noexcept
-      : f_{std::exchange(o.f_, nullptr)}, filename_{std::move(o.filename_)} {}
+      : filename_{std::move(o.filename_)}, f_{std::exchange(o.f_, nullptr)} {}
 
   file& operator=(file&& o) noexcept {
     if (this == &o) {
@@ -208,8 +208,8 @@ struct file {
 
   operator FILE*() { return f_; }
 
-  FILE* f_;
   std::string filename_;
+  FILE* f_;
 };
 #endif
 
-- 
2.43.0


From 3f6257ace708dc8beac2e3512cd4c2d322bf969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 17/36] fix: allow resizing a buffer to zero bytes

---
 include/utl/parser/buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 6cc786d..6443353 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -59,7 +59,8 @@ struct buffer final {
   inline unsigned char* end() { return data() + size_; }
 
   inline void resize(std::size_t new_size) {
-    if (void* tmp = std::realloc(buf_, new_size)) {
+    // realloc(p, 0) would free p and return a null pointer
+    if (void* tmp = std::realloc(buf_, new_size == 0 ? 1 : new_size)) {
       buf_ = tmp;
       size_ = new_size;
     } else {
-- 
2.43.0


From 3850884b6e0760b49c51afd12997855210895b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 18/36] fix: report the progress of a last line without newline

---
 include/utl/parser/buf_reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utl/parser/buf_reader.h b/include/utl/parser/buf_reader.h
index 626f34d..1478491 100644
--- a/include/utl/parser/buf_reader.h
+++ b/include/utl/parser/buf_reader.h
@@ -31,6 +31,7 @@ struct buf_reader {
     if (nl == nullptr) {
       auto const tmp = it_;
       it_ = last;
+      update_progress();
       return {tmp, static_cast<size_t>(num)};
     } else {
       auto const length = nl - start;
-- 
2.43.0


From c43a992f7f93b0cdcca1d322f5a0316b096e6409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 19/36] fix: report open and read errors when iterating over
 the lines of a file

---
 include/utl/for_each_line_in_file.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/utl/for_each_line_in_file.h b/include/utl/for_each_line_in_file.h
index d2e7f0c..e3c80d8 100755
--- a/include/utl/for_each_line_in_file.h
+++ b/include/utl/for_each_line_in_file.h
@@ -1,9 +1,13 @@
 #pragma once
 
+#include <cstdio>
 #include <fstream>
+#include <iostream>
 #include <istream>
 #include <string>
 
+#include "utl/verify.h"
+
 namespace utl {
 
 template <typename Fn>
@@ -14,14 +18,21 @@ void for_each_line_in_file(std::string const& filename, Fn&& f) {
     in = &std::cin;
   } else {
     f_in.open(filename);
+    verify(f_in.is_open(), "unable to open file {}", filename);
     in = &f_in;
   }
 
   std::string line;
-  while (in->peek() != EOF && !in->eof()) {
-    std::getline(*in, line);
+  auto const check = [&]() {
+    // std::cin takes a read error of stdin for the end of the input
+    verify(!in->bad() && (in != &std::cin || std::ferror(stdin) == 0),
+           "file read error: {}", filename);
+  };
+  while (std::getline(*in, line)) {
+    check();
     f(line);
   }
+  check();
 }
 
 }  // namespace utl
-- 
2.43.0


From bd2cc8e67c028e81443c1c97125cd1fc1132a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 20/36] fix: destroy a generator's coroutine once when the
 generator is moved

---
 include/utl/generator.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index 4f2b3c8..b26b7e9 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -1,5 +1,6 @@
 #include <coroutine>
 #include <exception>
+#include <utility>
 
 namespace utl {
 
@@ -27,7 +28,24 @@ struct generator {
 
   generator(handle_type h) : h_(h) {}
 
-  ~generator() { h_.destroy(); }
+  generator(generator const&) = delete;
+  generator& operator=(generator const&) = delete;
+
+  generator(generator&& o) noexcept
+      : h_{std::exchange(o.h_, nullptr)},
+        full_{std::exchange(o.full_, false)} {}
+
+  generator& operator=(generator&& o) noexcept {
+    std::swap(h_, o.h_);
+    std::swap(full_, o.full_);
+    return *this;
+  }
+
+  ~generator() {
+    if (h_) {
+      h_.destroy();
+    }
+  }
 
   explicit operator bool() {
     if (h_.done()) {
-- 
2.43.0


From ff781ef09d03d97226ae012d98b9fb6cc1dc5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 21/36] fix: hand over the armed state when a scope guard is
 moved

---
 include/utl/raii.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/utl/raii.h b/include/utl/raii.h
index 508333d..d94ff81 100644
--- a/include/utl/raii.h
+++ b/include/utl/raii.h
@@ -49,13 +49,19 @@ struct finally {
   finally(finally const&) = delete;
   finally& operator=(finally const&) = delete;
 
-  finally(finally&& o) noexcept : destruct_{std::move(o.destruct_)} {
-    o.exec_ = false;
-  }
+  finally(finally&& o) noexcept
+      : exec_{std::exchange(o.exec_, false)},
+        destruct_{std::move(o.destruct_)} {}
 
   finally& operator=(finally&& o) noexcept {
+    if (this == &o) {
+      return *this;
+    }
+    if (exec_) {
+      destruct_();
+    }
     destruct_ = std::move(o.destruct_);
-    o.exec_ = false;
+    exec_ = std::exchange(o.exec_, false);
     return *this;
   }
 
-- 
2.43.0


From bfe65ab7dd7c07c78cf6772a58e0b817eff430ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 22/36] fix: is_uniform modifies the first element of its input

The reference bound to the first element was assigned every further
element, so the input changed (and could not be const); an empty range
was dereferenced.
---
 include/utl/is_uniform.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index a4e58be..ba8cbcf 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -7,24 +7,30 @@ namespace utl {
 
 template <typename It1, typename It2, typename Predicate>
 bool is_uniform(It1&& it1, It2&& it2, Predicate&& fn) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (fn(*it) != fn(pred)) {
+  if (it1 == it2) {
+    return true;
+  }
+  auto pred = it1;
+  for (auto it = std::next(pred); it != it2; ++it) {
+    if (fn(*it) != fn(*pred)) {
       return false;
     }
-    pred = *it;
+    pred = it;
   }
   return true;
 }
 
 template <typename It1, typename It2>
 bool is_uniform(It1&& it1, It2&& it2) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (*it != pred) {
+  if (it1 == it2) {
+    return true;
+  }
+  auto pred = it1;
+  for (auto it = std::next(pred); it != it2; ++it) {
+    if (*it != *pred) {
       return false;
     }
-    pred = *it;
+    pred = it;
   }
   return true;
 }
-- 
2.43.0


From 36a1a782429f490df6d0e20c50d375260144aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 23/36] fix: take_while reads beyond the end of its input

A range whose elements all satisfy the predicate was read past its end.
---
 include/utl/pipes/take_while.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index ca02a27..6a7bffb 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -18,7 +18,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename It>
   bool valid(It& it) {
-    return take_while_.fn_(this->read(it));
+    return parent_t::valid(it) && take_while_.fn_(this->read(it));
   }
 
   TakeWhile take_while_;
-- 
2.43.0


From 6ef433809c31901ba8579fc9b4e244a293ba8fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 24/36] fix: skip_lines sees an extra empty line after each CR
 LF line

The carriage return was taken off the line before its length was used to
step over it, which left the line feed to be read as a line of its own.
---
 include/utl/parser/cstr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 2691fb8..3839653 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -271,8 +271,8 @@ void for_each_line_numbered(cstr s, Function&& f) {
 template <typename Predicate>
 cstr skip_lines(cstr file_content, Predicate skip) {
   while (file_content.len > 0) {
-    cstr line = get_line(file_content);
-    if (!skip(line)) {
+    cstr line = get_until(file_content, '\n');
+    if (!skip(strip_cr(line))) {
       break;
     }
     file_content += line.len;
-- 
2.43.0


From d724caddf286d578f8fb62bf9ddb6c39a4126e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 25/36] fix: flag descriptions are cut off when memory runs out

A string stream swallows the exception of a failed allocation, so the
returned text silently ended in the middle.
---
 include/utl/cmd_line_parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utl/cmd_line_parser.h b/include/utl/cmd_line_parser.h
index 7446399..4790225 100644
--- a/include/utl/cmd_line_parser.h
+++ b/include/utl/cmd_line_parser.h
@@ -112,6 +112,7 @@ inline T parse_flags(int argc, char const** argv) {
 template <typename T>
 inline std::string description() {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   T t{};
   auto first = true;
   cista::for_each_field(t, [&](auto& f) {
@@ -146,6 +147,7 @@ inline std::string description() {
 template <typename T>
 inline std::string print_flags(T const& t) {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit);
   auto first = true;
   cista::for_each_field(t, [&](auto& f) {
     using Type = std::remove_cv_t<std::remove_reference_t<decltype(f)>>;
-- 
2.43.0


From 0ad68ef7b0be6172cb27da4dd0c5d4e38a49d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 26/36] fix: make_range returns a reference to a range that is
 gone

The range made for a container or a pointer is a temporary; returning it
as auto&& leaves a dangling reference, so container | sum() reads freed
stack memory.
---
 include/utl/pipes/make_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/make_range.h b/include/utl/pipes/make_range.h
index 02aa10e..d946bf2 100644
--- a/include/utl/pipes/make_range.h
+++ b/include/utl/pipes/make_range.h
@@ -10,10 +10,10 @@
 namespace utl {
 
 template <typename T>
-auto&& make_range(T&& t) {
+decltype(auto) make_range(T&& t) {
   using Type = std::remove_const_t<std::remove_reference_t<T>>;
   if constexpr (is_range<Type>::value) {
-    return t;
+    return static_cast<std::remove_reference_t<T>&>(t);
   } else if constexpr (std::is_pointer_v<Type>) {
     return all(*t);
   } else {
-- 
2.43.0


From 4387c0fc76a6d8a23ba4ce6ab7f344bab0ac3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 27/36] fix: parsing a path reads beyond the end of its text

---
 include/utl/parser/arg_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index d50755a..bc61ae9 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -135,7 +135,7 @@ inline void parse_arg(cstr& s, cista::raw::generic_string& arg) {
   arg.set_non_owning(s.str, static_cast<unsigned>(s.len));
 }
 
-inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.str; }
+inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.view(); }
 
 template <typename T>
 inline T parse(cstr s) {
-- 
2.43.0


From 90c33e8f03e9f6aff9c267892619bec1a0ea172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 28/36] fix: a parallel loop ends the process if a state or an
 error report cannot be made

The default construction of a worker's thread local state, and recording an
error without memory, threw out of the worker (std::terminate).
---
 include/utl/parallel_for.h | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 542f8d0..cdb9325 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -22,12 +22,22 @@ struct noop_progress_update {
 
 namespace detail {
 
-// If the thread cannot be started: ends and joins those already started.
+// If the thread cannot be started: ends and joins those already started. An
+// exception that leaves the worker (thread local state cannot be constructed,
+// no memory to report an error) stops all workers.
 template <typename Fun>
 void start_worker(std::vector<std::thread>& threads, std::atomic<bool>& quit,
-                  Fun&& fun) {
+                  std::mutex& mutex, std::exception_ptr& failure, Fun&& fun) {
   try {
-    threads.emplace_back(std::forward<Fun>(fun));
+    threads.emplace_back([&quit, &mutex, &failure, fun]() {
+      try {
+        fun();
+      } catch (...) {
+        std::lock_guard<std::mutex> lock{mutex};
+        failure = std::current_exception();
+        quit = true;
+      }
+    });
   } catch (...) {
     quit = true;
     std::for_each(begin(threads), end(threads), [](auto& t) { t.join(); });
@@ -49,10 +59,12 @@ inline errors_t parallel_for_run_threadlocal(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
+  std::exception_ptr failure;
   // zero means: unknown
   auto const n_threads = std::max(1U, std::thread::hardware_concurrency());
+  errors.reserve(n_threads);
   for (auto i = 0u; i < n_threads; ++i) {
-    detail::start_worker(threads, quit, [&]() {
+    detail::start_worker(threads, quit, errors_mutex, failure, [&]() {
       auto threadlocal = ThreadLocal{};
 
       while (!quit) {
@@ -78,6 +90,10 @@ inline errors_t parallel_for_run_threadlocal(
 
   std::for_each(begin(threads), end(threads), [](auto& t) { t.join(); });
 
+  if (failure) {
+    std::rethrow_exception(failure);
+  }
+
   if (err_strat == parallel_error_strategy::QUIT_EXEC && !errors.empty()) {
     std::rethrow_exception(errors.front().second);
   }
@@ -96,10 +112,12 @@ inline errors_t parallel_for_run(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
+  std::exception_ptr failure;
   // zero means: unknown
   auto const n_threads = std::max(1U, std::thread::hardware_concurrency());
+  errors.reserve(n_threads);
   for (auto i = 0u; i < n_threads; ++i) {
-    detail::start_worker(threads, quit, [&]() {
+    detail::start_worker(threads, quit, errors_mutex, failure, [&]() {
       while (!quit) {
         auto const idx = counter.fetch_add(1);
         if (idx >= job_count) {
@@ -123,6 +141,10 @@ inline errors_t parallel_for_run(
 
   std::for_each(begin(threads), end(threads), [](auto& t) { t.join(); });
 
+  if (failure) {
+    std::rethrow_exception(failure);
+  }
+
   if (err_strat == parallel_error_strategy::QUIT_EXEC && !errors.empty()) {
     std::rethrow_exception(errors.front().second);
   }
-- 
2.43.0


From d7867a56c6eeae762bdcce5247cf0425d53a7eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:26 +0000
Subject: [PATCH 29/36] fix: an empty line ends a range of lines or rows

line_range took an empty line for the end of the data, so that all lines
and, through csv<row>(), all rows after it were silently lost. An empty
line is a line; for a table it is not a row, but it does not end it.
---
 include/utl/parser/csv_range.h  | 15 +++++++++++----
 include/utl/parser/line_range.h |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/utl/parser/csv_range.h b/include/utl/parser/csv_range.h
index 3f3077b..9897350 100644
--- a/include/utl/parser/csv_range.h
+++ b/include/utl/parser/csv_range.h
@@ -104,9 +104,17 @@ struct csv_range : public LineRange {
     return t;
   }
 
-  std::optional<T> begin() {
+  // An empty line is not a row, but it does not end the table either.
+  cstr next_row() {
     cstr s;
-    LineRange::next(s);
+    do {
+      LineRange::next(s);
+    } while (LineRange::valid(s) && s.empty());
+    return s;
+  }
+
+  std::optional<T> begin() {
+    auto const s = next_row();
     if (LineRange::valid(s)) {
       return read_row(s);
     } else {
@@ -121,8 +129,7 @@ struct csv_range : public LineRange {
 
   template <typename It>
   void next(It& it) {
-    cstr s;
-    LineRange::next(s);
+    auto const s = next_row();
     if (LineRange::valid(s)) {
       it = read_row(s);
     } else {
diff --git a/include/utl/parser/line_range.h b/include/utl/parser/line_range.h
index 5255be2..289e9eb 100644
--- a/include/utl/parser/line_range.h
+++ b/include/utl/parser/line_range.h
@@ -22,7 +22,7 @@ struct line_range {
 
   template <typename It>
   bool valid(It& it) {
-    return it.valid();
+    return it.data() != nullptr;  // a line may be empty
   }
 
   Reader r_;
-- 
2.43.0


From 88e9356139154316c26ae245e5421c26a9c8110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:11 +0000
Subject: [PATCH 30/36] fix: floating point values beyond the range of int

---
 include/utl/parser/arg_parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index bc61ae9..4b3f5ec 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cassert>
+#include <cstdint>
 #include <filesystem>
 #include <string>
 
@@ -62,7 +63,7 @@ inline bool parse_fp(cstr& s, T& v) {
     ++s;
   }
 
-  int pre_point;
+  std::int64_t pre_point;
   parse_arg(s, pre_point);
   v = static_cast<T>(pre_point);
   if (s.len == 0) {
-- 
2.43.0


From 17c5f49fa3bb952cf8b137cae815e247a78a6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:12 +0000
Subject: [PATCH 31/36] fix: index of the end of an enumerated range

The end iterator of utl::enumerate had the index zero: distances to the end
(and std::distance) were zero whatever the size of the range, and stepping
back from the end gave elements with wrapped indices.
---
 include/utl/enumerate.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index c87b7cc..4f2c86c 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -91,8 +91,15 @@ constexpr auto enumerate(T&& iterable) {
     }
 
     auto end() {
+      using std::begin;
       using std::end;
-      return iterator<TIter>{0U, end(iterable_)};
+      auto size = std::size_t{0U};
+      if constexpr (std::bidirectional_iterator<TIter>) {
+        // distances to the end and steps back from it depend on its index
+        size = static_cast<std::size_t>(
+            std::distance<TIter>(begin(iterable_), end(iterable_)));
+      }
+      return iterator<TIter>{size, end(iterable_)};
     }
 
     T iterable_;
-- 
2.43.0


From 30fb01e018a2675845d8ac84b580491f59f02b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:29 +0000
Subject: [PATCH 32/36] fix: line_iterator + n advances the result, not its
 operand

It moved the operand and returned a copy from before the move.
---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 3839653..37b17f0 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -228,7 +228,7 @@ struct line_iterator {
   }
   line_iterator operator+(difference_type const n) {
     line_iterator curr = *this;
-    *this += n;
+    curr += n;
     return curr;
   }
 
-- 
2.43.0


From 8062252a8558a460913593e1ea2f020a98dfec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:29 +0000
Subject: [PATCH 33/36] fix: compare views that contain a NUL as a whole

strncmp stops at the first NUL: views of the same length that differ only
behind one were equal, although operator< told them apart.
---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 37b17f0..731d1f1 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -58,7 +58,7 @@ struct cstr {
     } else if (len == 0) {
       return true;
     } else {
-      return strncmp(str, s.str, len) == 0;
+      return std::memcmp(str, s.str, len) == 0;
     }
   }
   bool operator!=(cstr const& s) const { return !operator==(s); }
-- 
2.43.0


From b834180e3f0f87ae5370599bd014a472956dfeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:29 +0000
Subject: [PATCH 34/36] fix: utl::to_set of a pair of iterators did not compile

---
 include/utl/to_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/to_set.h b/include/utl/to_set.h
index 657bdee..1619e1e 100644
--- a/include/utl/to_set.h
+++ b/include/utl/to_set.h
@@ -10,8 +10,8 @@ template <typename It, typename UnaryOperation>
 inline auto to_set(It b, It e,
                    UnaryOperation&& op) -> std::set<decltype(op(*b))> {
   using set = std::set<decltype(op(*b))>;
-  set s(std::distance(s, e));
-  std::transform(b, e, std::insert_iterator<set>(s), op);
+  set s;
+  std::transform(b, e, std::insert_iterator<set>(s, s.begin()), op);
   return s;
 }
 
-- 
2.43.0


From 5dcdb6cb4d0f7903f203d2d66416221b3d102d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:50 +0000
Subject: [PATCH 35/36] fix: a quoted CSV field that is not closed ends with
 its line

The last character of the field was cut off, the line end was taken for
the closing quote (so that the next row was lost), and a single quote at
the end of the text gave a view of length -1.
---
 include/utl/parser/csv.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/csv.h b/include/utl/parser/csv.h
index 9968734..dd1f290 100644
--- a/include/utl/parser/csv.h
+++ b/include/utl/parser/csv.h
@@ -28,6 +28,7 @@ inline void parse_column(cstr& s, T& arg) {
 
   auto begin = s;
   int adjust_for_cr = 0;
+  int adjust_for_quote = 0;
   while (s) {
     char c = *s.str;
 
@@ -38,9 +39,11 @@ inline void parse_column(cstr& s, T& arg) {
     }
 
     if (c == end || c == '\r' || c == '\n' || s.len == 0) {
-      if ((end == '"' && s.len != 0) || (c == '\r' && s.len != 0)) {
+      auto const closing_quote = end == '"' && c == end;
+      if (closing_quote || c == '\r') {
         ++s;
       }
+      adjust_for_quote = closing_quote ? -1 : 0;
       adjust_for_cr = (c == '\r') ? -1 : 0;
       break;
     }
@@ -50,7 +53,6 @@ inline void parse_column(cstr& s, T& arg) {
     }
   }
 
-  int adjust_for_quote = (end == '"') ? -1 : 0;
   arg.assign(begin.str, static_cast<size_t>((s.str - begin.str) +
                                             adjust_for_quote + adjust_for_cr));
 }
-- 
2.43.0


From f815e9730c88bd069dab55b5ce7cd1dcff477aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:50 +0000
Subject: [PATCH 36/36] fix: an empty line that ends with CR LF is no row
 either

---
 include/utl/parser/csv_range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/csv_range.h b/include/utl/parser/csv_range.h
index 9897350..e46e1ff 100644
--- a/include/utl/parser/csv_range.h
+++ b/include/utl/parser/csv_range.h
@@ -109,7 +109,7 @@ struct csv_range : public LineRange {
     cstr s;
     do {
       LineRange::next(s);
-    } while (LineRange::valid(s) && s.empty());
+    } while (LineRange::valid(s) && (s.empty() || s == "\r"));
     return s;
   }
 
-- 
2.43.0

