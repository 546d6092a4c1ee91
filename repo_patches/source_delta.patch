From 893ecffca6bdf83dcafe6c523f0a71039cb58d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:44 +0000
Subject: [PATCH 01/15] fix: log statements mixing a string and an over-aligned
 argument do not compile

post_with_str_table called align<>() without qualifying it, which is not
visible from xtr::sink, so XTR_LOG(s, "{}{}", str, overaligned) was ill-formed.
---
 include/xtr/sink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/sink.hpp b/include/xtr/sink.hpp
index 66e88fd..f768b91 100644
--- a/include/xtr/sink.hpp
+++ b/include/xtr/sink.hpp
@@ -285,7 +285,7 @@ void xtr::sink::post_with_str_table(Args&&... args)
 
     auto func_pos = s.begin() + sizeof(fptr_t);
     if constexpr (alignof(lambda_t) > alignof(fptr_t))
-        func_pos = align<alignof(lambda_t)>(func_pos);
+        func_pos = detail::align<alignof(lambda_t)>(func_pos);
 
     static_assert(alignof(char) == 1);
     const auto str_pos = func_pos + sizeof(lambda_t);
-- 
2.43.0


From 811ad311ac5b4e921a2fb544dc42e9c457e854ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:59 +0000
Subject: [PATCH 02/15] fix: strings moved into a log statement are written
 unsanitized

---
 include/xtr/detail/string_table.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/xtr/detail/string_table.hpp b/include/xtr/detail/string_table.hpp
index e2a7ebd..e2f1a02 100644
--- a/include/xtr/detail/string_table.hpp
+++ b/include/xtr/detail/string_table.hpp
@@ -55,12 +55,22 @@ namespace xtr::detail
     };
 
     template<typename T>
-    requires (!std::same_as<std::remove_cvref_t<T>, string_table_entry>)
+    requires
+        (!std::same_as<std::remove_cvref_t<T>, string_table_entry> &&
+         !std::same_as<std::remove_cvref_t<T>, std::string>)
     T&& transform_string_table_entry(const std::byte*, T&& value)
     {
         return std::forward<T>(value);
     }
 
+    // Strings which were moved into the logger must be sanitized too
+    inline string_ref<std::string_view> transform_string_table_entry(
+        const std::byte*,
+        const std::string& str)
+    {
+        return string_ref<std::string_view>(str);
+    }
+
     inline string_ref<std::string_view> transform_string_table_entry(
         std::byte*& pos,
         string_table_entry entry)
-- 
2.43.0


From 0459fc63d305f7a063e01d0a005fa37daaafaa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:11 +0000
Subject: [PATCH 03/15] fix: make_fd_storage(path) leaks the file descriptor it
 opens

---
 src/fd_storage.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index b6e4520..3a301dd 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -23,6 +23,7 @@
 #include "xtr/io/io_uring_fd_storage.hpp"
 #include "xtr/io/posix_fd_storage.hpp"
 
+#include "xtr/detail/file_descriptor.hpp"
 #include "xtr/detail/retry.hpp"
 #include "xtr/detail/throw.hpp"
 
@@ -39,17 +40,18 @@
 XTR_FUNC
 xtr::storage_interface_ptr xtr::make_fd_storage(const char* path)
 {
-    const int fd =
+    // The storage duplicates the file descriptor, so it is closed here
+    const detail::file_descriptor fd(
         XTR_TEMP_FAILURE_RETRY(
             ::open(
                 path,
                 O_CREAT|O_APPEND|O_WRONLY,
-                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH));
+                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH)));
 
-    if (fd == -1)
+    if (!fd)
         detail::throw_system_error_fmt(errno, "Failed to open `%s'", path);
 
-    return make_fd_storage(fd, path);
+    return make_fd_storage(fd.get(), path);
 }
 
 XTR_FUNC
-- 
2.43.0


From 0b1cfe0578f1807c9af9289a7fdd01e212e501b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:11 +0000
Subject: [PATCH 04/15] fix: reopen path is lost when falling back to
 posix_fd_storage

---
 src/fd_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index 3a301dd..843850b 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -71,7 +71,8 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
     {
         try
         {
-            return std::make_unique<io_uring_fd_storage>(fd, std::move(reopen_path));
+            // reopen_path is copied as it is needed again if this fails
+            return std::make_unique<io_uring_fd_storage>(fd, reopen_path);
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From f43be7e1e549fee97231c77a381e8f1716212fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:11 +0000
Subject: [PATCH 05/15] fix: io_uring is leaked if allocating its buffers fails

---
 src/io_uring_fd_storage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 32b1f41..3b36811 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -75,7 +75,11 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
             "io_uring_queue_init failed");
     }
 
+    // The destructor does not run if allocate_buffers throws
+    std::unique_ptr<::io_uring, void(*)(::io_uring*)> guard(
+        &ring_, ::io_uring_queue_exit);
     allocate_buffers(queue_size);
+    guard.release();
 }
 
 XTR_FUNC
-- 
2.43.0


From 45f0c7237f21dc7f8bdef131a08c999e09b3fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:11 +0000
Subject: [PATCH 06/15] fix: completion of the close queued by reopen is
 mistaken for a write

---
 src/io_uring_fd_storage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 3b36811..4dafe32 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -174,6 +174,9 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
     // ensure that all previous writes complete before closing.
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
+    // The submission queue entry may have been used before, in which case it
+    // still refers to the buffer of an earlier write.
+    ::io_uring_sqe_set_data(sqe, nullptr);
     sqe->flags |= IOSQE_IO_DRAIN;
     ++pending_cqe_count_;
     io_uring_submit_func_(&ring_);
-- 
2.43.0


From 35bb850b7da2169d9c8a8948194af846940aded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:11 +0000
Subject: [PATCH 07/15] fix: buffer is submitted twice if allocating the next
 buffer fails

---
 src/buffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buffer.cpp b/src/buffer.cpp
index 021c71a..33a4cfd 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -114,7 +114,11 @@ XTR_FUNC
 void xtr::detail::buffer::next_buffer()
 {
     if (pos_ != begin_) [[likely]] // if not the first call to push_back
+    {
         storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));
+        // Do not submit the buffer again if allocate_buffer throws
+        pos_ = begin_ = end_ = nullptr;
+    }
     const std::span<char> s = storage_->allocate_buffer();
     begin_ = s.data();
     end_ = begin_ + s.size();
-- 
2.43.0


From dd618e601df2dba742eb1bbe93e433cdff1a3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:39 +0000
Subject: [PATCH 08/15] fix: data races between logger functions called from
 different threads

---
 include/xtr/logger.hpp | 3 ++-
 src/logger.cpp         | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index b72b054..c594f9f 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -31,6 +31,7 @@
 #include "log_level.hpp"
 #include "sink.hpp"
 
+#include <atomic>
 #include <chrono>
 #include <cstdio>
 #include <ctime>
@@ -354,7 +355,7 @@ private:
     jthread consumer_;
     sink control_;
     std::mutex control_mutex_;
-    log_level_t default_log_level_ = log_level_t::info;
+    std::atomic<log_level_t> default_log_level_ = log_level_t::info;
 
     friend sink;
 };
diff --git a/src/logger.cpp b/src/logger.cpp
index 386fdce..5c972c4 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -43,7 +43,9 @@ void xtr::logger::register_sink(sink& s, std::string name) noexcept
 XTR_FUNC
 void xtr::logger::set_command_path(std::string path) noexcept
 {
-    post(
+    // sync also posts to control_, so must be called with the lock held
+    std::scoped_lock lock{control_mutex_};
+    control_.post(
         [s = std::move(path)](detail::consumer& c, auto&) mutable
         {
             c.set_command_path(std::move(s));
@@ -54,7 +56,8 @@ void xtr::logger::set_command_path(std::string path) noexcept
 XTR_FUNC
 void xtr::logger::set_log_level_style(log_level_style_t level_style) noexcept
 {
-    post(
+    std::scoped_lock lock{control_mutex_};
+    control_.post(
         [=](detail::consumer& c, auto&)
         {
             c.buf.lstyle = level_style;
-- 
2.43.0


From feae49e7867218b38769cdc288ac6fbeb7962e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:39 +0000
Subject: [PATCH 09/15] fix: set_level command accepts negative levels

---
 src/consumer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index eaa00fb..4341f95 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -217,7 +217,7 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
 {
     sl.pattern.text[sizeof(sl.pattern.text) - 1] = '\0';
 
-    if (sl.level > xtr::log_level_t::debug)
+    if (sl.level < xtr::log_level_t::none || sl.level > xtr::log_level_t::debug)
     {
         cmds_->send_error(fd, "Invalid level");
         return;
-- 
2.43.0


From bead06efa3d80775268e237b85fdbf3bdaa74e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:39 +0000
Subject: [PATCH 10/15] fix: invalid timestamps for clock readings before the
 epoch

---
 include/xtr/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index c594f9f..10d49df 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -345,7 +345,7 @@ private:
                 const auto now = clock_.now();
                 auto sec = time_point_cast<seconds>(now);
                 if (sec > now)
-                    sec - seconds{1};
+                    sec -= seconds{1};
                 return std::timespec{
                     .tv_sec=sec.time_since_epoch().count(),
                     .tv_nsec=duration_cast<nanoseconds>(now - sec).count()};
-- 
2.43.0


From 8ad57b55ef07995ad41c4b46a7ebc8c891b51998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:39 +0000
Subject: [PATCH 11/15] fix: timestamp can exceed the size of its buffer

---
 src/consumer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 4341f95..07f3bb9 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -71,7 +71,8 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
 
         if (ts_stale)
         {
-            fmt::format_to(ts, "{}", xtr::timespec{clock()});
+            *fmt::format_to_n(
+                ts, sizeof(ts) - 1, "{}", xtr::timespec{clock()}).out = '\0';
             ts_stale = false;
         }
 
-- 
2.43.0


From 71fd3b3edf6f1edceef04155672631dcb46868e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:39 +0000
Subject: [PATCH 12/15] fix: division by zero if the CPU does not enumerate the
 TSC ratio

---
 src/tsc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsc.cpp b/src/tsc.cpp
index 1565473..9695b63 100644
--- a/src/tsc.cpp
+++ b/src/tsc.cpp
@@ -58,6 +58,10 @@ std::uint64_t xtr::detail::read_tsc_hz() noexcept
     // Where CCC = core crystal clock.
     auto [ratio_den, ratio_num, ccc_hz, unused] = cpuid(0x15);
 
+    // TSC / CCC ratio not enumerated
+    if (ratio_den == 0 || ratio_num == 0)
+        return 0;
+
     if (ccc_hz == 0)
     {
         // Core crystal clock frequency not provided, must infer
-- 
2.43.0


From 1c789455bb80c03722174bdd746373543f1d9941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:39 +0000
Subject: [PATCH 13/15] fix: read past the end of pollfds_ after the last
 client disconnects

---
 src/command_dispatcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command_dispatcher.cpp b/src/command_dispatcher.cpp
index 2566293..c7db65b 100644
--- a/src/command_dispatcher.cpp
+++ b/src/command_dispatcher.cpp
@@ -168,7 +168,7 @@ void xtr::detail::command_dispatcher::process_commands(int timeout) noexcept
             process_socket_read(pollfds_[i]);
             --nfds;
         }
-        if (fd != pollfds_[i].fd.get())
+        if (i == pollfds_.size() || fd != pollfds_[i].fd.get())
             --i; // Adjust for erased item
     }
 }
-- 
2.43.0


From da3e3bac0b9eb5115bd4d454a0929477eff7fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:39 +0000
Subject: [PATCH 14/15] fix: io_uring_fd_storage hangs if batch_size exceeds
 queue_size

---
 src/io_uring_fd_storage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 4dafe32..8dc1337 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -26,6 +26,7 @@
 
 #include <liburing.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cstdio>
 #include <cstring>
@@ -46,7 +47,9 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
 :
     fd_storage_base(fd, std::move(reopen_path)),
     buffer_capacity_(buffer_capacity),
-    batch_size_(batch_size),
+    // Waiting for a completion would never return if every buffer could be in
+    // use without any having been submitted.
+    batch_size_(std::max<std::size_t>(1, std::min(batch_size, queue_size))),
     io_uring_submit_func_(io_uring_submit_func),
     io_uring_get_sqe_func_(io_uring_get_sqe_func),
     io_uring_wait_cqe_func_(io_uring_wait_cqe_func),
-- 
2.43.0


From 927270410d9ab051e24aa8794a858acdbacbd804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:30 +0000
Subject: [PATCH 15/15] fix: lines logged just before a sink is closed are not
 flushed while idle

---
 src/consumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 07f3bb9..c1a5702 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -99,6 +99,8 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
+            // The sink may have logged before it was closed
+            flush_count = sinks_.size();
             continue;
         }
 
-- 
2.43.0

