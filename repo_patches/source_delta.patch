From 956075a625de5084715ec43cc6d46fe8ae4877ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 01/35] fix: flush on the worker thread directly when a message
 reaches the flush level

The worker enqueued a flush to its own pool and waited for it, which never
returned when it was the only worker (or when all workers did it at once).
---
 include/async_logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/async_logger.h b/include/async_logger.h
index f849331..88a8202 100644
--- a/include/async_logger.h
+++ b/include/async_logger.h
@@ -80,7 +80,7 @@ private:
         }
 
         if (should_flush_(msg_popped.level)) {
-            flush_sink_();
+            do_flush_sink_();
         }
     }
     
-- 
2.43.0


From d0e1bb174e63eb2f7df52e7667ce36f38b7ce108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 02/35] fix: order the producer token lock with acquire/release

Relaxed operations do not order the enqueue operations they are meant to
serialise.
---
 base/lockfree_concurrent_thread_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index b963788..c2013c9 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -19,13 +19,14 @@ struct atomic_token {
     void enqueue_lock() {
         bool expected = false;
         while (!enqueuing_.compare_exchange_weak(expected, true,
+                                             std::memory_order_acquire,
                                              std::memory_order_relaxed)) {
             expected = false;
         }
     }
 
     void release() {
-        enqueuing_.store(false, std::memory_order_relaxed);
+        enqueuing_.store(false, std::memory_order_release);
     }
 };
 
-- 
2.43.0


From d7893afbdf0d1d71d1693344341db7d069e00bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 03/35] fix: create missing parent directories of absolute
 paths

---
 base/os.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index a664aa1..72162cb 100755
--- a/base/os.h
+++ b/base/os.h
@@ -206,7 +206,8 @@ inline bool create_dir(const filename_t& path) {
         }
 #endif
 
-        if (!dir_exist(curr_dir) && !mkdir_(curr_dir)) {
+        // 绝对路径的第一级（"/" 之前）为空，跳过
+        if (!curr_dir.empty() && !dir_exist(curr_dir) && !mkdir_(curr_dir)) {
             return false;
         }
         offset = spr_pos + 1;
-- 
2.43.0


From b7f022bc642d0e1e32064d4a630e1314b9e318a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 04/35] fix: report I/O errors in file sink destructors instead
 of terminating

---
 sinks/basic_file_sink.h   | 6 ++++--
 sinks/rolling_file_sink.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sinks/basic_file_sink.h b/sinks/basic_file_sink.h
index 461cfee..03c8d32 100644
--- a/sinks/basic_file_sink.h
+++ b/sinks/basic_file_sink.h
@@ -24,8 +24,10 @@ public:
     }
     
     ~basic_file_sink() override {
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, filename_);
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, filename_); }
+        LEARNLOG_CATCH
     }
 
     filename_t filename() const { return filename_; }
diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index db233bd..ce783b7 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -41,8 +41,10 @@ public:
     }
 
     ~rolling_file_sink() { 
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, get_rolling_filename(file_index_));
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, get_rolling_filename(file_index_)); }
+        LEARNLOG_CATCH
     }
    
     filename_t base_filename() const { return base_fname_; }
-- 
2.43.0


From e9da183d714a0717fd9ad3a2657499e489b0c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 05/35] fix: do not keep a closed stream after fclose() fails

---
 base/file_base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index 57835e6..833589c 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -10,14 +10,14 @@ namespace file_base {
 // 关闭文件
 inline void close(FILE** fpp, const filename_t& fname) {
     if (*fpp != nullptr) {
-        if (::fclose(*fpp) != 0) {
+        FILE* fp = *fpp;
+        *fpp = nullptr;     // 无论 fclose() 是否成功，原文件流都不能再使用
+        if (::fclose(fp) != 0) {
             source_loc loc{__FILE__, __LINE__, __func__};
             std::string fname_str(fname.begin(), fname.end());
             std::string err_str = fmt::format("learnlog::file_base::close() failed, filename: '{}'", fname_str);
             throw_learnlog_excpt(err_str, os::get_errno(), loc);
         }
-        
-        *fpp = nullptr;
     }
 }
 
-- 
2.43.0


From 40690def5865d285e3c846e2981aa08f9d5e3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 06/35] fix: call the terminal detection in is_color_terminal()

The lambda was converted to bool, so every terminal counted as a color one.
---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 72162cb..02a5b23 100755
--- a/base/os.h
+++ b/base/os.h
@@ -116,7 +116,7 @@ inline bool is_color_terminal() noexcept {
         return std::any_of(terms.begin(), terms.end(), [&](const char *term) {
             return std::strstr(env_term, term) != nullptr;
         });
-    };
+    }();
 
     return result;
 #endif
-- 
2.43.0


From 1e1057e6d7d3b92b2f15b728f7ec3c8e8f56c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 07/35] fix: use the documented three-letter month name for
 September

---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 1bef636..477f4c6 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -71,7 +71,7 @@ static const std::array<const char *, 7> weekday_name{
     {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"} };
 
 static const std::array<const char *, 12> month_name{
-    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec"}};
+    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}};
 
 // 格式化星期几
 class a_formatter final : public flag_formatter {
-- 
2.43.0


From f3467c6010ffc05d51ae7d0b05fd9ea898df57e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 08/35] fix: %C with a source location that has no function
 name

source_loc leaves funcname null by default; the formatter dereferenced it.
---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 477f4c6..74e478e 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -424,7 +424,7 @@ public:
         : flag_formatter(sp_info) {}
 
     void format(const base::log_msg& msg, const std::tm&, fmt_memory_buf& dest_buf) override {
-        if (msg.loc.empty()) {
+        if (msg.loc.empty() || msg.loc.funcname == nullptr) {
             filler f(0, spaces_info_, dest_buf);
             return;
         }
-- 
2.43.0


From 1d90ada884a720444b42e12354bf0d87a63c042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 09/35] fix: lost wakeup when a periodic_function is destroyed

active_ was cleared without the mutex, so the notification could fall between
the predicate check and the wait, and the destructor slept a whole interval.
---
 base/periodic_function.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 5d6fa49..52636e3 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -36,7 +36,10 @@ public:
 
     ~periodic_function() {
         if (thread_.joinable()) {
-            active_ = false;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                active_ = false;
+            }
             cv_.notify_one();
             thread_.join();
         }
-- 
2.43.0


From 3938a098900a9b9a82e9d27ab9f07483aaf7f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 10/35] fix: share one mutex between all async factories

A static in the function template exists once per sink type, so two concurrent
create() calls could each register a pool and destroy the other one's.
---
 include/async_factory.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/async_factory.h b/include/async_factory.h
index b1ac68e..be5aa45 100644
--- a/include/async_factory.h
+++ b/include/async_factory.h
@@ -11,12 +11,18 @@
 
 namespace learnlog {
 
+// 所有 async_factory 共用的互斥锁，函数模板内的 static 变量在每次实例化时各不相同，
+// 不能保护 get_thread_pool() 到 register_thread_pool() 之间的过程
+inline std::mutex& async_factory_mutex() {
+    static std::mutex mutex;
+    return mutex;
+}
+
 template <typename Threadpool>
 struct async_factory_template {
     template <typename Sink, typename... SinkArgs>
     static async_logger_shr_ptr create(std::string logger_name, SinkArgs &&...args) {
-        static std::mutex async_factory_mutex_;
-        std::lock_guard<std::mutex> lock(async_factory_mutex_);
+        std::lock_guard<std::mutex> lock(async_factory_mutex());
         auto tp = base::registry::instance().get_thread_pool();
         if (tp == nullptr) {
             auto tp_new = std::make_shared<Threadpool>();
-- 
2.43.0


From 9853ff907d0acd442355d776997f627783b40bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 11/35] fix: disable_backtrace() on a logger that never enabled
 it

---
 include/logger.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/logger.h b/include/logger.h
index 107174b..7bf86e7 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -189,7 +189,9 @@ public:
         }
         tracer_->enable_with_size(msg_num);
     }
-    void disable_backtrace() { tracer_->disable(); }
+    void disable_backtrace() {
+        if (tracer_ != nullptr) { tracer_->disable(); }
+    }
     void dump_backtrace();
 
     const std::vector<sink_shr_ptr>& sinks() const { return sinks_; }
-- 
2.43.0


From 9a94fc8623d1b92fb663617a1053362cf4cc81f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 12/35] fix: sleep_for_ms() slept microseconds

---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 02a5b23..36ae5ab 100755
--- a/base/os.h
+++ b/base/os.h
@@ -78,7 +78,7 @@ inline void sleep_for_ms(size_t ms) noexcept {
 #ifdef _WIN32
     ::Sleep(static_cast<DWORD>(ms));
 #else
-    std::this_thread::sleep_for(microseconds{ms});
+    std::this_thread::sleep_for(milliseconds{ms});
 #endif
 }
 
-- 
2.43.0


From fc7d55215937517e37b75e4a078089e55efc06de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 13/35] fix: wait between attempts when a truncating open fails
 too

---
 base/file_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/file_base.h b/base/file_base.h
index 833589c..adf6502 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -44,7 +44,10 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
         
         if (truncate) {
             FILE* fd_tmp;
-            if (!os::open_file(&fd_tmp, fname, wb)) continue;
+            if (!os::open_file(&fd_tmp, fname, wb)) {
+                os::sleep_for_ms(try_every_ms);
+                continue;
+            }
             ::fclose(fd_tmp);
         }
         
-- 
2.43.0


From 451a3046c00bc4fe8bcf5b74ce243750f3167485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 14/35] fix: size() of an invalid circular_queue divided by
 zero

---
 base/circular_queue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/circular_queue.h b/base/circular_queue.h
index 1b00eff..9f8037d 100755
--- a/base/circular_queue.h
+++ b/base/circular_queue.h
@@ -35,7 +35,12 @@ public:
         return *this;
     }
 
-    size_t size() const { return (tail_ - head_ + max_size_) % max_size_; }
+    size_t size() const {
+        if(max_size_ > 0) {
+            return (tail_ - head_ + max_size_) % max_size_;
+        }
+        return 0;
+    }
 
     size_t vec_size() const { return max_size_; }
 
-- 
2.43.0


From 20560ee4e10a51fd78d9ea4024efaec1631f9add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 15/35] fix: define learnlog::swap() and swap the patterns too

The function was defined in the global namespace, so the declared one had no
definition; the sinks changed places without the pattern they use.
---
 src/logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 3c2a5d4..74f33fe 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -10,6 +10,7 @@ void logger::swap(logger& other) noexcept {
     std::swap(log_level_, other.log_level_);
     std::swap(flush_level_, other.flush_level_);
     std::swap(tracer_, other.tracer_);
+    pattern_.swap(other.pattern_);
 }
 
 void logger::set_pattern(std::string pattern) {
@@ -73,4 +74,4 @@ void logger::flush_sink_() {
 }
 
 
-void swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
+void learnlog::swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
-- 
2.43.0


From 0b7ecb3b6ccd4250183376533d490cbeec42d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 16/35] fix: do not abort debug builds when the clock steps
 back

handle_excpt() asserted that the system clock had advanced since the last report.
---
 base/exception.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/base/exception.h b/base/exception.h
index d209299..8d47546 100755
--- a/base/exception.h
+++ b/base/exception.h
@@ -29,11 +29,8 @@ inline void handle_excpt(const std::string& msg) {
     static std::atomic<tp> last_report_time{ tp(seconds(0)) };
     static std::atomic<size_t> report_cnt{1};
 
-    tp lr_time = last_report_time.load(std::memory_order_acquire);
     tp now = sys_clock::now();
     size_t cnt = report_cnt.fetch_add(1, std::memory_order_relaxed);
-    assert( now - lr_time > std::chrono::nanoseconds(1) );
-    (void)lr_time;
     // if(now - lr_time < std::chrono::seconds(1)){ return; }
     last_report_time.store(now, std::memory_order_release);
 
-- 
2.43.0


From b70ffdd73ec35bb2c737017b75b944e7fc5db8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 17/35] fix: let rolling_file_sink recover after a failed roll

Once the next file could not be opened, every later message was dropped for good.
---
 sinks/rolling_file_sink.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index ce783b7..0ff6307 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -92,7 +92,11 @@ private:
     void output_(const base::log_msg &msg) override {
         fmt_memory_buf buf;
         basic_sink<Mutex>::formatter_->format(msg, buf);
-        if (cur_file_size_ + buf.size() > max_file_size_) {
+        if (file_ == nullptr) {     // 上次滚动文件失败，重新尝试打开
+            roll_file_();
+            cur_file_size_ = 0;
+        }
+        else if (cur_file_size_ + buf.size() > max_file_size_) {
             flush_();
             if (base::file_base::size(file_, get_rolling_filename(file_index_)) > 0) {
                 roll_file_();
-- 
2.43.0


From 2cdadc0f4c59a01c5eb19a1b2e6f92b4d8499ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 18/35] fix: apply the global formatter to newly initialized
 loggers

set_pattern() came second and replaced it with a formatter for the global pattern.
---
 base/registry.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 99a4a22..2a974be 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -10,9 +10,8 @@ using namespace base;
 
 void registry::initialize_logger(logger_shr_ptr new_logger) {
     std::lock_guard<std::mutex> lock(loggers_mutex_);
+    new_logger->set_pattern(global_pattern_);
     new_logger->set_formatter(global_formatter_->clone());
-    std::string pattern = global_pattern_;
-    new_logger->set_pattern(pattern);
     new_logger->set_log_level(global_log_level_);
     new_logger->set_flush_level(global_flush_level_);
     
-- 
2.43.0


From 6f844ba3352a7fa1f33d998dbca4724fd59da61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 19/35] fix: set_global_pattern() in one step, get_pattern() of
 existing loggers included

The pattern and the formatter were set under separate locks, so concurrent calls
could leave new loggers with another pattern than existing ones.
---
 base/registry.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 2a974be..e94b3c6 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -59,13 +59,12 @@ void registry::set_default_logger(logger_shr_ptr new_default_logger) {
 }
 
 void registry::set_global_pattern(std::string pattern) {
-    {
-        std::lock_guard<std::mutex> lock(loggers_mutex_);
-        global_pattern_ = pattern;
+    std::lock_guard<std::mutex> lock(loggers_mutex_);
+    global_pattern_ = std::move(pattern);
+    global_formatter_ = learnlog::make_unique<sinks::pattern_formatter>(global_pattern_);
+    for (auto &l : loggers_) {
+        l.second->set_pattern(global_pattern_);
     }
-    auto new_pattern_formatter = 
-        learnlog::make_unique<sinks::pattern_formatter>(std::move(pattern));
-    set_global_formatter(std::move(new_pattern_formatter));
 }
 
 void registry::set_global_formatter(formatter_uni_ptr new_formatter) {
-- 
2.43.0


From 4127d9b2407d4542edb22d4b94ec6a18167b32c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 20/35] fix: lockfree_thread_pool hangs when other threads hold
 all queue blocks

A partly filled block stays with the thread that took it, so with more live
threads than blocks try_enqueue() failed forever on an empty queue.
---
 base/lockfree_thread_pool.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index f5e890f..3b902d0 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -105,8 +105,13 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
-        while (!msg_q_.try_enqueue(std::move(amsg)))
-            continue;
+        while (!msg_q_.try_enqueue(std::move(amsg))) {
+            // 内存块可能全部被其他线程占用（各自都未写满，不会被回收），此时即使队列未满，
+            // try_enqueue() 也会一直失败，需要申请新的内存块
+            if (msg_q_.size_approx() < msg_q_size_ && msg_q_.enqueue(std::move(amsg))) {
+                break;
+            }
+        }
     }
 
     void dequeue_async_msg_(async_msg& amsg) override {
-- 
2.43.0


From 845f66d41356e23488aad8ffdeb42c97104a5dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 21/35] fix: lockfree_thread_pool loses a message when it is
 destroyed

size_approx() is zero as soon as a worker has claimed a message, and the worker
may then dequeue the terminate message of another thread instead and exit.
---
 base/lockfree_thread_pool.h | 7 +++++++
 base/thread_pool.cpp        | 3 +++
 base/thread_pool.h          | 1 +
 3 files changed, 11 insertions(+)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index 3b902d0..1b52edf 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -94,6 +94,13 @@ public:
             for (auto &t : threads_){
                 t.join();
             }
+            // 不同线程的消息在队列中没有先后关系，后台线程可能先取到 terminate，
+            // 退出后仍有消息留在队列中，在此处理完
+            async_msg amsg;
+            while (msg_q_.try_dequeue(amsg)) {
+                process_async_msg_(amsg);
+                amsg = async_msg{};
+            }
         }
         catch(const std::exception& e) {
             source_loc loc{__FILE__, __LINE__, __func__};
diff --git a/base/thread_pool.cpp b/base/thread_pool.cpp
index 190b3d6..57b8cf2 100755
--- a/base/thread_pool.cpp
+++ b/base/thread_pool.cpp
@@ -41,7 +41,10 @@ std::future<void> thread_pool::enqueue_flush(async_logger_shr_ptr&& logger) {
 bool thread_pool::process_async_msg_() {
     async_msg msg_popped;
     dequeue_async_msg_(msg_popped);
+    return process_async_msg_(msg_popped);
+}
 
+bool thread_pool::process_async_msg_(async_msg& msg_popped) {
     switch (msg_popped.msg_type) {
         case async_msg_type::log: {
             msg_popped.logger->do_sink_log_(msg_popped);
diff --git a/base/thread_pool.h b/base/thread_pool.h
index 31928c3..eb34bfc 100755
--- a/base/thread_pool.h
+++ b/base/thread_pool.h
@@ -34,6 +34,7 @@ public:
 
 protected:
     bool process_async_msg_();
+    bool process_async_msg_(async_msg& msg_popped);
     void worker_loop_();
     virtual void enqueue_async_msg_(async_msg&& amsg) = 0;
     virtual void dequeue_async_msg_(async_msg& amsg) = 0;
-- 
2.43.0


From 6250907a3181cf9b3c58f12c0cc629ccd0282cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 22/35] fix: producer tokens of lockfree_concurrent_thread_pool
 belong to one pool

The thread-local token survived its pool and was used with every other one, so
after a pool was replaced messages went to a deleted token.
---
 base/lockfree_concurrent_thread_pool.cpp |  3 ++
 base/lockfree_concurrent_thread_pool.h   | 48 ++++++++++++++----------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/base/lockfree_concurrent_thread_pool.cpp b/base/lockfree_concurrent_thread_pool.cpp
index ecda9fa..0a22e91 100644
--- a/base/lockfree_concurrent_thread_pool.cpp
+++ b/base/lockfree_concurrent_thread_pool.cpp
@@ -5,4 +5,7 @@ using namespace base;
 
 #ifdef LEARNLOG_USE_TLS
     thread_local atomic_token* lockfree_concurrent_thread_pool::token_ = nullptr;
+    std::atomic<size_t> lockfree_concurrent_thread_pool::pool_cnt_{0};
+    thread_local lockfree_concurrent_thread_pool::producer_token_cache 
+        lockfree_concurrent_thread_pool::producer_token_ = {0, nullptr};
 #endif
diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index c2013c9..26cf903 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -174,16 +174,26 @@ private:
     void enqueue_async_msg_(async_msg&& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        if (token_ == nullptr) {
-            size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
-            {
-                std::lock_guard<std::mutex> lock(t_mutex_);
-                token_ = atomic_tokens_[cnt % threads_num_];
-            }
-            producer_sema_.signal();
+        // 缓存只对上次使用的线程池有效，线程可能先后或同时使用多个线程池
+        if (producer_token_.pool_id != pool_id_) {
+            producer_token_ = {pool_id_, find_producer_token_()};
         }
-        token = token_;
+        token = producer_token_.token;
 #else
+        token = find_producer_token_();
+#endif
+        token->enqueue_lock();
+        while (!msg_q_.try_enqueue(token->p_token_, std::move(amsg))) {
+            if (msg_q_.enqueue(token->p_token_, std::move(amsg))) {
+                break;
+            }
+        }
+        token->release();
+    }
+
+    // 获取当前线程在该线程池中的生产者 token，第一次调用时分配
+    atomic_token* find_producer_token_() {
+        atomic_token* token = nullptr;
         size_t tid = os::thread_id();
         {
             std::lock_guard<std::mutex> lock(p_mutex_);
@@ -200,14 +210,7 @@ private:
                 token = producer_atomic_tokens_[tid];
             }
         }
-#endif
-        token->enqueue_lock();
-        while (!msg_q_.try_enqueue(token->p_token_, std::move(amsg))) {
-            if (msg_q_.enqueue(token->p_token_, std::move(amsg))) {
-                break;
-            }
-        }
-        token->release();
+        return token;
     }
 
     void dequeue_async_msg_(async_msg& amsg) override {
@@ -231,11 +234,18 @@ private:
 
     std::mutex t_mutex_;
     std::vector<atomic_token*> atomic_tokens_;
-#ifdef LEARNLOG_USE_TLS
-    static thread_local atomic_token* token_;
-#else
     std::mutex p_mutex_;
     std::unordered_map<size_t, atomic_token*> producer_atomic_tokens_;
+#ifdef LEARNLOG_USE_TLS
+    struct producer_token_cache {
+        size_t pool_id;
+        atomic_token* token;
+    };
+    static std::atomic<size_t> pool_cnt_;
+    const size_t pool_id_{++pool_cnt_};
+    static thread_local atomic_token* token_;   // 后台线程的消费者 token
+    static thread_local producer_token_cache producer_token_;
+#else
     std::mutex c_mutex_;
     std::unordered_map<size_t, atomic_token*> consumer_atomic_tokens_;
 #endif
-- 
2.43.0


From 3c08d19073665a2e56b60532e1aa71f5c6ef8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 23/35] fix: data race between logging and changing the log or
 flush level

The levels, global ones included, may be changed while other threads log.
---
 include/definitions.h | 16 ++++++++++++++++
 include/logger.h      |  4 ++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/definitions.h b/include/definitions.h
index 37b8df6..cb5d784 100755
--- a/include/definitions.h
+++ b/include/definitions.h
@@ -12,6 +12,7 @@
     #include <fmt/format.h>
 #endif
 
+#include <atomic>
 #include <chrono>
 #include <memory>
 #include <initializer_list>
@@ -187,6 +188,21 @@ enum level_enum : int {
 const fmt_string_view level_name[7] = { {"trace"}, {"debug"}, {"info"}, {"warn"}, 
                                         {"error"}, {"critical"}, {"off"} };
 
+// 可拷贝的原子日志等级，允许在其他线程记录日志的同时修改
+class atomic_level {
+public:
+    atomic_level(level_enum lvl) : level_(lvl) {}
+    atomic_level(const atomic_level& other) : level_(static_cast<level_enum>(other)) {}
+    atomic_level& operator=(const atomic_level& other) {
+        level_.store(other, std::memory_order_relaxed);
+        return *this;
+    }
+    operator level_enum() const { return level_.load(std::memory_order_relaxed); }
+
+private:
+    std::atomic<level_enum> level_;
+};
+
 }   // namespace level
 
 }   // namespace learnlog
\ No newline at end of file
diff --git a/include/logger.h b/include/logger.h
index 7bf86e7..bd58f56 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -206,8 +206,8 @@ protected:
     std::string name_;
     std::vector<sink_shr_ptr> sinks_;
     std::shared_ptr<base::backtracer> tracer_;
-    level::level_enum log_level_ = level::info;
-    level::level_enum flush_level_ = level::off;
+    level::atomic_level log_level_{level::info};
+    level::atomic_level flush_level_{level::off};
     std::string pattern_ = "%+";
     bool is_async_ = false;  
 
-- 
2.43.0


From eb267552e32dabf62e03f314401cb8758f79fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 24/35] fix: drain lockfree_thread_pool on its worker threads
 before they end

---
 base/lockfree_thread_pool.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index 1b52edf..a2a0053 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -34,6 +34,7 @@ public:
                 }
 #endif
                 this->thread_pool::worker_loop_();
+                drain_();
                 stop_func_();
             });
         }
@@ -56,6 +57,7 @@ public:
                 }
 #endif
                 this->thread_pool::worker_loop_();
+                drain_();
                 stop_func_();
             });
         }
@@ -78,6 +80,7 @@ public:
                 }
 #endif
                 this->thread_pool::worker_loop_();
+                drain_();
                 stop_func_();
             });
         }
@@ -94,13 +97,6 @@ public:
             for (auto &t : threads_){
                 t.join();
             }
-            // 不同线程的消息在队列中没有先后关系，后台线程可能先取到 terminate，
-            // 退出后仍有消息留在队列中，在此处理完
-            async_msg amsg;
-            while (msg_q_.try_dequeue(amsg)) {
-                process_async_msg_(amsg);
-                amsg = async_msg{};
-            }
         }
         catch(const std::exception& e) {
             source_loc loc{__FILE__, __LINE__, __func__};
@@ -135,6 +131,21 @@ private:
 #endif
     }
 
+    // 后台线程取到 terminate 后，退出前调用，
+    // 不同线程的消息在队列中没有先后关系，terminate 可能先于其他消息被取到，
+    // 需要处理完队列中剩余的消息，多取到的 terminate 属于其他后台线程，放回队列
+    void drain_() {
+        size_t terminate_cnt = 0;
+        async_msg amsg;
+        while (msg_q_.try_dequeue(amsg)) {
+            if (!process_async_msg_(amsg)) ++terminate_cnt;
+            amsg = async_msg{};
+        }
+        for (; terminate_cnt > 0; --terminate_cnt) {
+            enqueue_async_msg_(async_msg(async_msg_type::terminate));
+        }
+    }
+
 #ifdef LEARNLOG_USE_TLS
     static thread_local c_token_uni_ptr token_;
 #else
-- 
2.43.0


From e2ddbd8f11962f9bc99a28a01ba71aff18681f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 25/35] fix: a moved-from log_msg_buf referred to memory it no
 longer owned

---
 base/log_msg_buf.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/base/log_msg_buf.h b/base/log_msg_buf.h
index e1d4b93..e96c1c7 100755
--- a/base/log_msg_buf.h
+++ b/base/log_msg_buf.h
@@ -40,12 +40,14 @@ public:
         : log_msg{other},
           buf_{std::move(other.buf_)} {
         update_string_view();
+        other.reset_string_view();
     }
 
     log_msg_buf& operator=(log_msg_buf &&other) noexcept {
         log_msg::operator=(other);
         buf_ = std::move(other.buf_);
         update_string_view();
+        if (this != &other) { other.reset_string_view(); }
         return *this;
     }
 
@@ -54,6 +56,12 @@ private:
         log_msg::logger_name = fmt_string_view(buf_.data(), logger_name.size());
         log_msg::msg = fmt_string_view(buf_.data() + logger_name.size(), msg.size());
     }
+
+    // 移动后的对象不再拥有缓冲区，避免 logger_name 与 msg 成为悬空引用
+    void reset_string_view() {
+        log_msg::logger_name = fmt_string_view();
+        log_msg::msg = fmt_string_view();
+    }
     
     fmt_memory_buf buf_;
 };
-- 
2.43.0


From cf1a99c03d96355741637f0f37012fccc0b22a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:48 +0000
Subject: [PATCH 26/35] fix: keep the index slots of blocks left by a failed
 bulk enqueue

---
 base/concurrentqueue/concurrentqueue.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/base/concurrentqueue/concurrentqueue.h b/base/concurrentqueue/concurrentqueue.h
index 23e8a63..143b846 100644
--- a/base/concurrentqueue/concurrentqueue.h
+++ b/base/concurrentqueue/concurrentqueue.h
@@ -2061,6 +2061,7 @@ private:
 			auto startBlock = this->tailBlock;
 			auto originalBlockIndexFront = pr_blockIndexFront;
 			auto originalBlockIndexSlotsUsed = pr_blockIndexSlotsUsed;
+			size_t blockIndexEntriesAdded = 0;
 			
 			Block* firstAllocatedBlock = nullptr;
 			
@@ -2079,6 +2080,7 @@ private:
 					auto& entry = blockIndex.load(std::memory_order_relaxed)->entries[pr_blockIndexFront];
 					entry.base = currentTailIndex;
 					entry.block = this->tailBlock;
+					++blockIndexEntriesAdded;
 					pr_blockIndexFront = (pr_blockIndexFront + 1) & (pr_blockIndexSize - 1);
 				}
 				
@@ -2092,16 +2094,14 @@ private:
 					bool full = !details::circular_less_than<index_t>(head, currentTailIndex + BLOCK_SIZE) || (MAX_SUBQUEUE_SIZE != details::const_numeric_max<size_t>::value && (MAX_SUBQUEUE_SIZE == 0 || MAX_SUBQUEUE_SIZE - BLOCK_SIZE < currentTailIndex - head));
 					if (pr_blockIndexRaw == nullptr || pr_blockIndexSlotsUsed == pr_blockIndexSize || full) {
 						MOODYCAMEL_CONSTEXPR_IF (allocMode == CannotAlloc) {
-							// Failed to allocate, undo changes (but keep injected blocks)
+							// Failed to allocate, undo changes (but keep injected blocks, which keep their index slots)
 							pr_blockIndexFront = originalBlockIndexFront;
-							pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
 							this->tailBlock = startBlock == nullptr ? firstAllocatedBlock : startBlock;
 							return false;
 						}
-						else if (full || !new_block_index(originalBlockIndexSlotsUsed)) {
-							// Failed to allocate, undo changes (but keep injected blocks)
+						else if (full || !new_block_index(pr_blockIndexSlotsUsed - blockIndexEntriesAdded)) {
+							// Failed to allocate, undo changes (but keep injected blocks, which keep their index slots)
 							pr_blockIndexFront = originalBlockIndexFront;
-							pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
 							this->tailBlock = startBlock == nullptr ? firstAllocatedBlock : startBlock;
 							return false;
 						}
@@ -2109,14 +2109,13 @@ private:
 						// pr_blockIndexFront is updated inside new_block_index, so we need to
 						// update our fallback value too (since we keep the new index even if we
 						// later fail)
-						originalBlockIndexFront = originalBlockIndexSlotsUsed;
+						originalBlockIndexFront = pr_blockIndexSlotsUsed - blockIndexEntriesAdded;
 					}
 					
 					// Insert a new block in the circular linked list
 					auto newBlock = this->parent->ConcurrentQueue::template requisition_block<allocMode>();
 					if (newBlock == nullptr) {
 						pr_blockIndexFront = originalBlockIndexFront;
-						pr_blockIndexSlotsUsed = originalBlockIndexSlotsUsed;
 						this->tailBlock = startBlock == nullptr ? firstAllocatedBlock : startBlock;
 						return false;
 					}
@@ -2140,6 +2139,7 @@ private:
 					auto& entry = blockIndex.load(std::memory_order_relaxed)->entries[pr_blockIndexFront];
 					entry.base = currentTailIndex;
 					entry.block = this->tailBlock;
+					++blockIndexEntriesAdded;
 					pr_blockIndexFront = (pr_blockIndexFront + 1) & (pr_blockIndexSize - 1);
 				}
 				
-- 
2.43.0


From 9ca5dcbee11e4ceeabe2e3ff242d88839ad01b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 27/35] fix: reading past the end of a pattern that ends in an
 incomplete flag

---
 sinks/formatters/pattern_formatter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 9b989ea..4be7a89 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -59,9 +59,9 @@ void pattern_formatter::analyse_pattern_(const std::string& pattern) {
 
             spaces_info sp_info = analyse_spaces_info_(++it, end);
 
-            if (it != end) {
-                append_flag_formatter_(*it, sp_info);
-            }
+            if (it == end) break;   // 模板以未完成的格式字符结尾，避免 ++it 越过末尾
+
+            append_flag_formatter_(*it, sp_info);
         }
         else {
             if (!as_is_formatter) {
-- 
2.43.0


From 3b4b8040e7c9c033f3fbfbfa9aeb41f856f2586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 28/35] fix: log(loc, level, msg) of the default logger parsed
 a message without arguments as a format string

---
 include/learnlog.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/learnlog.h b/include/learnlog.h
index dc2efe2..892e969 100644
--- a/include/learnlog.h
+++ b/include/learnlog.h
@@ -208,6 +208,11 @@ void log(source_loc loc, level::level_enum lvl, const T &msg) {
     learnlog::get_default_logger()->log(loc, lvl, msg);
 }
 
+// msg 不带参数时直接输出，不作为格式字符串解析
+inline void log(source_loc loc, level::level_enum level, fmt_string_view msg) {
+    learnlog::get_default_logger()->log(loc, level, msg);
+}
+
 template <typename T>
 void log(level::level_enum level, const T& msg) {
     learnlog::get_default_logger()->log(level, msg);
-- 
2.43.0


From c50a6986a8fbc24242eb8bc0add143f7242693a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 29/35] fix: periodic_function called its function without
 pause when the interval was too large to add to the current time

---
 base/periodic_function.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 52636e3..10d818e 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -20,9 +20,17 @@ public:
         active_ = (interval > std::chrono::duration<Rep, Period>::zero());
         if (!active_) return;
 
-        thread_ = std::thread([this, func, interval] {
+        // interval 过大时，与当前时间相加会溢出，使 wait_for() 立即返回，因此改为一直等待直到析构
+        const bool endless = std::chrono::duration<double>(interval) >
+                             std::chrono::hours(24 * 365 * 100);
+
+        thread_ = std::thread([this, func, interval, endless] {
             for (;;) {
                 std::unique_lock<std::mutex> lock(mutex_);
+                if (endless) {
+                    cv_.wait(lock, [this] {return !this->active_;} );
+                    return;
+                }
                 if (cv_.wait_for(lock, interval, [this] {return !this->active_;} )) {
                     return;
                 }
-- 
2.43.0


From 3ec13050830d2e05d4956c24181bd0d4e1f61294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 30/35] fix: dequeue_for() returned at once or never for
 durations too large to add to the current time

---
 base/block_queue.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/block_queue.h b/base/block_queue.h
index 16f90a6..3914c9e 100755
--- a/base/block_queue.h
+++ b/base/block_queue.h
@@ -74,6 +74,7 @@ public:
     }
 
     bool dequeue_for(T& popped_item, std::chrono::milliseconds duration) {
+        duration = clamp_duration_(duration);
         {
             std::unique_lock<std::mutex> lock(queue_mutex_);
             if (!push_cv_.wait_for(lock, duration, [this] { return !this->queue_.empty(); })) {
@@ -129,6 +130,7 @@ public:
     }
 
     bool dequeue_for(T& popped_item, std::chrono::milliseconds duration) {
+        duration = clamp_duration_(duration);
         std::unique_lock<std::mutex> lock(queue_mutex_);
         if (!push_cv_.wait_for(lock, duration, [this] { return !this->queue_.empty(); })) {
             return false;
@@ -169,6 +171,13 @@ public:
     void reset_discard_count() { discard_count_.store(0, std::memory_order_relaxed); }
 
 private:
+    // duration 与当前时间相加不能溢出，否则 wait_for() 会立即返回或永不返回，因此限制在 0 至 100 年
+    static std::chrono::milliseconds clamp_duration_(std::chrono::milliseconds duration) {
+        const std::chrono::milliseconds zero(0);
+        const std::chrono::milliseconds max = std::chrono::hours(24 * 365 * 100);
+        return duration < zero ? zero : duration > max ? max : duration;
+    }
+
     std::mutex queue_mutex_;
     std::condition_variable push_cv_;
     std::condition_variable pop_cv_;
-- 
2.43.0


From c995eef1e8f1f4266a0229c6b147e211a265078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 31/35] fix: records logged in a forked child carry the thread
 id of the parent

The id of the thread is cached in a thread_local variable; the thread that
calls fork() goes on in the child under another id.
---
 base/os.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/base/os.h b/base/os.h
index 36ae5ab..fac2d72 100755
--- a/base/os.h
+++ b/base/os.h
@@ -20,6 +20,7 @@
 
 #else  // unix
     #include <fcntl.h>
+    #include <pthread.h>
     #include <unistd.h>
 
     #ifdef __linux__
@@ -145,10 +146,22 @@ inline size_t _thread_id() noexcept {
 #endif
 }
 
-inline size_t thread_id() noexcept {
 #ifdef LEARNLOG_USE_TLS
-    static thread_local const size_t tid = os::_thread_id();
+inline size_t& _cached_thread_id() noexcept {
+    static thread_local size_t tid = os::_thread_id();
     return tid;
+}
+#endif
+
+inline size_t thread_id() noexcept {
+#ifdef LEARNLOG_USE_TLS
+#ifndef _WIN32
+    // fork() 之后，子进程中的线程 id 与父进程不同，需要更新缓存
+    static const int registered =
+        ::pthread_atfork(nullptr, nullptr, [] { os::_cached_thread_id() = os::_thread_id(); });
+    (void)registered;
+#endif
+    return os::_cached_thread_id();
 #else
     return os::_thread_id();
 #endif 
-- 
2.43.0


From c27846af54af9638e20c31eee14ada412db81aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 32/35] fix: times before 1970 are rendered with garbage below
 the second

---
 base/fmt_base.h                   |  5 +++--
 base/os.h                         | 11 +++++++++--
 sinks/formatters/flag_formatter.h |  3 +--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/base/fmt_base.h b/base/fmt_base.h
index 648345f..94a2497 100755
--- a/base/fmt_base.h
+++ b/base/fmt_base.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "definitions.h"
+#include "base/os.h"
 
 namespace learnlog {
 namespace base {
@@ -75,8 +76,8 @@ inline Metric precise_time(sys_clock::time_point tp) {
     using std::chrono::duration_cast;
 
     auto duration = tp.time_since_epoch();
-    auto secs = duration_cast<seconds>(duration);
-    return duration_cast<Metric>(duration) - duration_cast<Metric>(secs);
+    auto secs = os::floor_to_seconds(tp);
+    return duration_cast<Metric>(duration - secs);
 }
 
 }   // namespace fmt_base
diff --git a/base/os.h b/base/os.h
index fac2d72..3f63e9f 100755
--- a/base/os.h
+++ b/base/os.h
@@ -46,8 +46,15 @@ inline std::tm _time_t_to_tm(const std::time_t& time_tt) noexcept {
     return tm;
 }
 
+// 将 tp 向下取整至秒，1970 年之前的时间点为负数，不能直接截断
+inline seconds floor_to_seconds(const sys_clock::time_point& tp) noexcept {
+    auto duration = tp.time_since_epoch();
+    auto secs = std::chrono::duration_cast<seconds>(duration);
+    return secs > duration ? secs - seconds(1) : secs;
+}
+
 inline std::time_t time_point_to_time_t(const sys_clock::time_point& tp) noexcept {
-    return sys_clock::to_time_t(tp);
+    return sys_clock::to_time_t(sys_clock::time_point(os::floor_to_seconds(tp)));
 }
 
 inline std::tm time_point_to_tm(const sys_clock::time_point& tp) noexcept {
@@ -63,7 +70,7 @@ inline void time_point_to_datetime_nsec(char* dt_buf, size_t buf_len, const sys_
     using std::chrono::duration_cast;
     
     auto duration = tp.time_since_epoch();
-    auto secs = duration_cast<seconds>(duration);
+    auto secs = os::floor_to_seconds(tp);
     nanoseconds ns = duration_cast<nanoseconds>(duration) - duration_cast<nanoseconds>(secs);
     char ns_str[10];
     snprintf(ns_str, sizeof(ns_str), "%09lld", static_cast<long long>( ns.count() ));
diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 74e478e..82cf683 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -442,8 +442,7 @@ public:
         : flag_formatter(sp_info) {}
 
     void format(const base::log_msg& msg, const std::tm& time_tm, fmt_memory_buf& dest_buf) override {
-        auto duration = msg.time.time_since_epoch();
-        seconds secs = std::chrono::duration_cast<seconds>(duration);
+        seconds secs = base::os::floor_to_seconds(msg.time);
 
         // 填充 datetime_buf_ ，每秒最多填充 1 次
         if(secs != last_call_secs_ || datetime_buf_.size() == 0) {
-- 
2.43.0


From 0e59d2724b91dca8cf0f18c50313006743295fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 33/35] fix: elements destroyed twice with the queue after a
 refused bulk enqueue

---
 base/concurrentqueue/concurrentqueue.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/concurrentqueue/concurrentqueue.h b/base/concurrentqueue/concurrentqueue.h
index 143b846..9e0e058 100644
--- a/base/concurrentqueue/concurrentqueue.h
+++ b/base/concurrentqueue/concurrentqueue.h
@@ -1796,9 +1796,10 @@ private:
 				if ((this->headIndex.load(std::memory_order_relaxed) & static_cast<index_t>(BLOCK_SIZE - 1)) != 0) {
 					// The head's not on a block boundary, meaning a block somewhere is partially dequeued
 					// (or the head block is the tail block and was fully dequeued, but the head/tail are still not on a boundary)
-					size_t i = (pr_blockIndexFront - pr_blockIndexSlotsUsed) & (pr_blockIndexSize - 1);
-					while (details::circular_less_than<index_t>(pr_blockIndexEntries[i].base + BLOCK_SIZE, this->headIndex.load(std::memory_order_relaxed))) {
-						i = (i + 1) & (pr_blockIndexSize - 1);
+					// Search backwards from the newest entry: the oldest ones may be left over from a bulk enqueue that failed
+					size_t i = (pr_blockIndexFront - 1) & (pr_blockIndexSize - 1);
+					while (details::circular_less_than<index_t>(this->headIndex.load(std::memory_order_relaxed), pr_blockIndexEntries[i].base)) {
+						i = (i - 1) & (pr_blockIndexSize - 1);
 					}
 					assert(details::circular_less_than<index_t>(pr_blockIndexEntries[i].base, this->headIndex.load(std::memory_order_relaxed)));
 					halfDequeuedBlock = pr_blockIndexEntries[i].block;
-- 
2.43.0


From 5b5536807c5d9e3a0dc3bbbe3f4339347c6465f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 34/35] fix: assigning a log_msg_buf to itself lost its buffer

---
 base/log_msg_buf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/log_msg_buf.h b/base/log_msg_buf.h
index e96c1c7..a9ad666 100755
--- a/base/log_msg_buf.h
+++ b/base/log_msg_buf.h
@@ -29,6 +29,7 @@ public:
     }
 
     log_msg_buf& operator=(const log_msg_buf &other) {
+        if (this == &other) { return *this; }
         log_msg::operator=(other);
         buf_.clear();
         buf_.append(other.buf_.data(), other.buf_.data() + other.buf_.size());
-- 
2.43.0


From 1c0061f4409a09a22f84cfe8d11d5dac7c600248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 35/35] fix: flushing a rolling file sink without an open file
 flushed every stream of the process

---
 base/file_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/file_base.h b/base/file_base.h
index adf6502..42fd804 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -64,6 +64,8 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
 
 // 刷新文件流缓冲区
 inline void flush(FILE* fp, const filename_t& fname) {
+    if (fp == nullptr) return;      // fflush(nullptr) 会刷新（并等待）进程中所有的文件流
+
     if (::fflush(fp) != 0) {
         source_loc loc{__FILE__, __LINE__, __func__};
         std::string fname_str(fname.begin(), fname.end());
-- 
2.43.0

