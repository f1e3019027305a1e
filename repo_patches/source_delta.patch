From 57b88edae2ddceff242ea96e83d487f965cec197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 01/54] fix: BytesMut::reserve must not wrap around on huge
 requests

data_len + additional overflowed size_t, so reserve() returned without the
space it promised instead of throwing.
---
 kio/core/bytes_mut.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index 5ace5fa..9121836 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -63,6 +63,10 @@ namespace kio
             if (writable() >= additional) return;
 
             const size_t data_len = remaining();
+            if (additional > buffer_.max_size() - data_len)
+            {
+                throw std::length_error("BytesMut::reserve() size overflow");
+            }
             const size_t available_total = buffer_.capacity();
 
             // Strategy 1: Compact in place if it fits
-- 
2.43.0


From 8c0e03ae3006b3feee6c747c24935f8c36d1e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 02/54] fix: BytesMut::commit_write must reject counts that
 overflow the cursor

write_pos_ + n wrapped around for huge n, so the check passed and the write
cursor moved backwards.
---
 kio/core/bytes_mut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index 9121836..87dd5ba 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -155,7 +155,7 @@ namespace kio
          */
         void commit_write(const size_t n)
         {
-            if (write_pos_ + n > buffer_.size())
+            if (n > writable())
             {
                 throw std::out_of_range("BytesMut::commit_write() beyond buffer size");
             }
-- 
2.43.0


From a10fbaf668ff0e0f22da1e2a6a6c53d4f5465e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 03/54] fix: RESP bulk frames must be terminated by CRLF

The two bytes after a bulk payload were skipped without being looked at, so a
frame with a wrong declared length was accepted and the stream desynchronised.
---
 kio/resp/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 2e5901f..bb81551 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -132,6 +132,9 @@ namespace kio::resp
         const auto total = header_len + payload_len + 2;
         if (data.size() < total) return std::unexpected(ParseError::NeedMoreData);
 
+        // The payload must be closed by CRLF, otherwise the declared length is wrong
+        if (data[total - 2] != '\r' || data[total - 1] != '\n') return std::unexpected(ParseError::MalformedFrame);
+
         return FrameHeader{type, data.data(), total, 0};
     }
 
-- 
2.43.0


From a7049e5728df97df1edbade20aaf18075eca8da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 04/54] fix: accept an explicit plus sign in RESP integers and
 doubles

RESP3 allows :+5 and ,+3.14; both were rejected because std::from_chars does
not take a leading plus sign.
---
 kio/resp/parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index bb81551..edb0d82 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -45,6 +45,13 @@ namespace kio::resp
         return std::nullopt;
     }
 
+    // RESP3 numbers may carry an explicit plus sign, which std::from_chars refuses
+    static std::string_view strip_plus(std::string_view s)
+    {
+        if (s.size() > 1 && s[0] == '+' && s[1] != '+' && s[1] != '-') s.remove_prefix(1);
+        return s;
+    }
+
     static std::optional<double> parse_double(std::string_view s)
     {
         if (s.empty()) return std::nullopt;
@@ -53,6 +60,8 @@ namespace kio::resp
         if (s == "-inf") return -std::numeric_limits<double>::infinity();
         if (s == "nan") return std::numeric_limits<double>::quiet_NaN();
 
+        s = strip_plus(s);
+
         double val;
         auto [ptr, ec] = std::from_chars(s.data(), s.data() + s.size(), val);
         if (ec == std::errc() && ptr == s.data() + s.size()) return val;
@@ -153,7 +162,7 @@ namespace kio::resp
             case FrameType::Integer:
             {
                 // Validation: ensure it is a valid 64-bit integer
-                if (!parse_int({data.data() + 1, *pos - 1}))
+                if (!parse_int(strip_plus({data.data() + 1, *pos - 1})))
                 {
                     return std::unexpected(ParseError::Atoi);
                 }
-- 
2.43.0


From 138af705ace6372b8bf3ca8133b6102a32ce985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 05/54] fix: MPSCQueue of capacity 1 must not overwrite its
 element

---
 kio/sync/mpsc_queue.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kio/sync/mpsc_queue.h b/kio/sync/mpsc_queue.h
index b174d12..7bd931e 100644
--- a/kio/sync/mpsc_queue.h
+++ b/kio/sync/mpsc_queue.h
@@ -20,6 +20,10 @@ namespace kio
      *
      * Supports non-default-constructible and move-only T by using placement-new
      * inside per-cell uninitialized storage.
+     *
+     * The cell used for position pos has sequence 2 * pos while it is free and
+     * 2 * pos + 1 while it holds an element, so that the two states also differ
+     * from those of the neighbouring positions when the capacity is 1.
      */
     template<typename T>
     class MPSCQueue
@@ -61,7 +65,7 @@ namespace kio
             // Initialize sequence numbers for each slot (no T construction)
             for (size_t i = 0; i < capacity; ++i)
             {
-                buffer_[i].sequence.store(i, std::memory_order_relaxed);
+                buffer_[i].sequence.store(2 * i, std::memory_order_relaxed);
             }
 
             enqueue_pos_.store(0, std::memory_order_relaxed);
@@ -90,11 +94,11 @@ namespace kio
                     Cell &cell = buffer_[i & mask_];
 
                     // Check if this cell contains a constructed object
-                    if (const size_t seq = cell.sequence.load(std::memory_order_relaxed); seq == i + 1)
+                    if (const size_t seq = cell.sequence.load(std::memory_order_relaxed); seq == 2 * i + 1)
                     {
                         cell.destroy_in_place();
                         // Mark as empty for safety
-                        cell.sequence.store(i + mask_ + 1, std::memory_order_relaxed);
+                        cell.sequence.store(2 * (i + mask_ + 1), std::memory_order_relaxed);
                     }
                 }
             }
@@ -115,7 +119,7 @@ namespace kio
                 cell = &buffer_[pos & mask_];
                 const size_t seq = cell->sequence.load(std::memory_order_acquire);
 
-                if (const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(pos); diff == 0)
+                if (const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(2 * pos); diff == 0)
                 {
                     if (enqueue_pos_.compare_exchange_weak(pos, pos + 1, std::memory_order_relaxed, std::memory_order_relaxed))
                     {
@@ -135,7 +139,7 @@ namespace kio
             // Construct directly in cell storage from a forwarded argument
             cell->construct_in_place(std::forward<U>(u));
 
-            cell->sequence.store(pos + 1, std::memory_order_release);
+            cell->sequence.store(2 * pos + 1, std::memory_order_release);
             return true;
         }
 
@@ -152,7 +156,7 @@ namespace kio
             {
                 cell = &buffer_[pos & mask_];
                 const size_t seq = cell->sequence.load(std::memory_order_acquire);
-                const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(pos + 1);
+                const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(2 * pos + 1);
 
                 if (diff == 0)
                 {
@@ -177,7 +181,7 @@ namespace kio
             cell->destroy_in_place();
 
             // Mark the slot as available for producers again:
-            cell->sequence.store(pos + mask_ + 1, std::memory_order_release);
+            cell->sequence.store(2 * (pos + mask_ + 1), std::memory_order_release);
 
             return true;
         }
-- 
2.43.0


From 8a9599dcac5e15672233e29ffc43cfe9d2229bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 06/54] fix: Logger::flush must not consume the queue
 concurrently with the logger thread

---
 kio/core/async_logger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 45f6113..9e97f25 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -11,6 +11,7 @@
 #include <functional>
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <source_location>
 #include <span>
 #include <string>
@@ -182,6 +183,8 @@ namespace kio {
         }
 
         void flush() {
+            // The queue has a single consumer: callers take turns with the consumer thread
+            std::lock_guard lock(consumer_mutex_);
             LogMessage entry;
             while (queue_.try_pop(entry)) {
                 write(entry);
@@ -314,6 +317,7 @@ namespace kio {
         }
 
         MPSCQueue<LogMessage> queue_;
+        std::mutex consumer_mutex_;
         std::atomic<LogLevel> level_;
         std::jthread consumer_thread_;
         int wakeup_fd_{-1};
-- 
2.43.0


From dcaab9b07fe1497e14aa7782eeeed867c7835094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 07/54] fix: Logger::should_log must judge a message by a
 single level

---
 kio/core/async_logger.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 9e97f25..e53a175 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -153,8 +153,9 @@ namespace kio {
 
         [[nodiscard]]
         bool should_log(LogLevel lvl) const noexcept {
-            if (const auto current_level = level_.load(std::memory_order_relaxed); current_level == LogLevel::Disabled) return false;
-            return static_cast<int>(lvl) >= static_cast<int>(level_.load(std::memory_order_relaxed));
+            // One load: the level may change between two
+            const auto current_level = level_.load(std::memory_order_relaxed);
+            return current_level != LogLevel::Disabled && static_cast<int>(lvl) >= static_cast<int>(current_level);
         }
 
         template<typename... Args>
-- 
2.43.0


From 4ff3b354c40838a3df56081bea7d3ce84f612925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 08/54] fix: MetricSnapshot::BuildFamily must return the
 existing family and keep references valid

---
 kio/metrics/model.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kio/metrics/model.h b/kio/metrics/model.h
index a6fc510..0f5cfd8 100644
--- a/kio/metrics/model.h
+++ b/kio/metrics/model.h
@@ -4,6 +4,7 @@
 
 #ifndef KIO_MODEL_H
 #define KIO_MODEL_H
+#include <deque>
 #include <map>
 #include <string>
 #include <vector>
@@ -69,18 +70,24 @@ namespace kio
          */
         MetricFamily& BuildFamily(std::string name, std::string help, const MetricType type, const size_t max_samples = kMetricsMaxSamples)
         {
+            // Several collectors may contribute to one metric: its samples must stay in a single family
+            for (auto& family: families_)
+            {
+                if (family.name == name) return family;
+            }
             families_.emplace_back(MetricFamily{max_samples, std::move(name), std::move(help), type, {}});
             return families_.back();
         }
 
         [[nodiscard]]
-        const std::vector<MetricFamily>& GetFamilies() const
+        const std::deque<MetricFamily>& GetFamilies() const
         {
             return families_;
         }
 
     private:
-        std::vector<MetricFamily> families_;
+        // a deque, because collectors keep references to families while building others
+        std::deque<MetricFamily> families_;
     };
 
 }  // namespace kio
-- 
2.43.0


From b2d42aa6af8cab466773c625e30430b5143f5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 09/54] fix: metric values must be written with full precision

---
 kio/metrics/serializer.cpp |  2 +-
 kio/metrics/utils.h        | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index ca5e09b..8d2116c 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -32,7 +32,7 @@ namespace kio
                     }
                     ss << "}";
                 }
-                ss << " " << sample.value << "\n";
+                ss << " " << FormatValue(sample.value) << "\n";
             }
             // Extra newline between families
             ss << "\n";
diff --git a/kio/metrics/utils.h b/kio/metrics/utils.h
index d67ed29..fdec8bd 100644
--- a/kio/metrics/utils.h
+++ b/kio/metrics/utils.h
@@ -4,6 +4,10 @@
 
 #ifndef KIO_UTILS_H
 #define KIO_UTILS_H
+#include <cmath>
+#include <format>
+#include <string>
+
 #include "model.h"
 
 namespace kio
@@ -20,6 +24,14 @@ namespace kio
         return "untyped";
     }
 
+    /// Shortest text that parses back to the same double, with the names the exposition format uses for non-finite values
+    inline std::string FormatValue(const double value)
+    {
+        if (std::isnan(value)) return "NaN";
+        if (std::isinf(value)) return value > 0 ? "+Inf" : "-Inf";
+        return std::format("{}", value);
+    }
+
     inline std::string SanitizeLabelValue(const std::string& v)
     {
         bool needs_escape = false;
-- 
2.43.0


From f08e2b56fb3e31968dc4a233288cc96c7d3964a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 10/54] fix: escape backslashes and line feeds in metric help
 texts

---
 kio/metrics/serializer.cpp |  2 +-
 kio/metrics/utils.h        | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index 8d2116c..fdc52b2 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -14,7 +14,7 @@ namespace kio
         std::ostringstream ss;
         for (const auto& family: snapshot.GetFamilies())
         {
-            ss << "# HELP " << family.name << " " << family.help << "\n";
+            ss << "# HELP " << family.name << " " << EscapeHelp(family.help) << "\n";
             ss << "# TYPE " << family.name << " " << ToString(family.type) << "\n";
 
             for (const auto& sample: family.samples)
diff --git a/kio/metrics/utils.h b/kio/metrics/utils.h
index fdec8bd..cf591dc 100644
--- a/kio/metrics/utils.h
+++ b/kio/metrics/utils.h
@@ -68,6 +68,21 @@ namespace kio
         return out;
     }
 
+    inline std::string EscapeHelp(const std::string& help)
+    {
+        std::string out;
+        for (const char c: help)
+        {
+            if (c == '\\')
+                out += "\\\\";
+            else if (c == '\n')
+                out += "\\n";
+            else
+                out += c;
+        }
+        return out;
+    }
+
     inline std::string SanitizeLabelKey(const std::string& key)
     {
         std::string out;
-- 
2.43.0


From 19ba9201646465dfada38325c2ff65accc16709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 11/54] fix: SanitizeLabelKey must not return an empty label
 name

---
 kio/metrics/utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/utils.h b/kio/metrics/utils.h
index cf591dc..f6fe0fd 100644
--- a/kio/metrics/utils.h
+++ b/kio/metrics/utils.h
@@ -98,7 +98,8 @@ namespace kio
                 out += '_';
             }
         }
-        return out;
+        // an empty label name is not valid in the exposition format
+        return out.empty() ? "_" : out;
     }
 
 }  // namespace kio
-- 
2.43.0


From 067cd96bb78e6105fdb1e71622d0769b9ca528a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 12/54] fix: resolve_address must fill in the ip and port it
 returns

---
 kio/net/net.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/net/net.cpp b/kio/net/net.cpp
index f1eb186..4a71f47 100644
--- a/kio/net/net.cpp
+++ b/kio/net/net.cpp
@@ -28,6 +28,7 @@ namespace kio::net
             addr4->sin_family = AF_INET;
             addr4->sin_port = htons(port);
             result.addrlen = sizeof(sockaddr_in);
+            result.populate_from_storage();
             return result;
         }
 
@@ -39,6 +40,7 @@ namespace kio::net
             addr6->sin6_family = AF_INET6;
             addr6->sin6_port = htons(port);
             result.addrlen = sizeof(sockaddr_in6);
+            result.populate_from_storage();
             return result;
         }
 
@@ -63,6 +65,7 @@ namespace kio::net
         std::memcpy(&result.addr, res->ai_addr, res->ai_addrlen);
 
         freeaddrinfo(res);
+        result.populate_from_storage();
         return result;
     }
 
-- 
2.43.0


From 86e992d7b33764b4716484a5d4ff1a256ac0c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 13/54] fix: resolve_address must refuse host names with an
 embedded NUL

---
 kio/net/net.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kio/net/net.cpp b/kio/net/net.cpp
index 4a71f47..368dfe2 100644
--- a/kio/net/net.cpp
+++ b/kio/net/net.cpp
@@ -19,6 +19,11 @@ namespace kio::net
     {
         SocketAddress result;
         const std::string host_str(host);
+        // The C functions below would stop at an embedded NUL and resolve only what precedes it
+        if (host_str.find('\0') != std::string::npos)
+        {
+            return std::unexpected(Error{ErrorCategory::Network, ENOENT});
+        }
 
         // ---- Try IPv4 ----
         auto* addr4 = reinterpret_cast<sockaddr_in*>(&result.addr);
-- 
2.43.0


From bad1cafcaa0bf67677078b18e09155ac48d4d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 14/54] fix: a refused operation must not leave an unprepared
 entry in the submission queue

---
 kio/core/uring_awaitable.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kio/core/uring_awaitable.h b/kio/core/uring_awaitable.h
index 42e96bb..bd8c3b9 100644
--- a/kio/core/uring_awaitable.h
+++ b/kio/core/uring_awaitable.h
@@ -39,16 +39,19 @@ namespace kio::io
                    "kio::async_* operation was called from the wrong thread. "
                    "You must co_await SwitchToWorker(worker) at the start of your task.");
 
+            // Allocate the op id first: this can throw, and an SQE taken from the ring cannot be given back.
+            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+
             sqe_ = io_uring_get_sqe(&internal::WorkerAccess::get_ring(worker_));
             if (sqe_ == nullptr)
             {
                 // no SQE available right now; return error immediately
+                internal::WorkerAccess::release_op_id(worker_, op_id_);
                 immediate_result_ = -EAGAIN;
                 return false;
             }
 
-            // allocate an op id and record the coroutine handle
-            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+            // record the coroutine handle
             internal::WorkerAccess::init_op_slot(worker_, op_id_, h);
 
             // Call prep sqe
-- 
2.43.0


From d230bb112be3f09386694d92b523353f38081308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 15/54] fix: the operation table must grow when size times
 growth factor rounds down

---
 kio/core/worker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 6ae1476..7cf4bd6 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -72,7 +72,9 @@ namespace kio::io
         }
 
         const auto cur_size = op_data_pool_.size();
-        size_t new_size = std::min(static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor), config_.max_op_slots);
+        // always grow by at least one slot: a small pool times a small factor rounds down to the same size
+        size_t new_size = std::max(static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor), cur_size + 1);
+        new_size = std::min(new_size, config_.max_op_slots);
         ALOG_DEBUG("Growing op_data_pool_ from {} to {}", cur_size, new_size);
         op_data_pool_.resize(new_size);
         for (size_t i = cur_size; i < new_size; ++i)
-- 
2.43.0


From b1d9c473d3f60feeb4e068a78e676001b8e01e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 16/54] fix: AsyncBaton::wait_for must wake its waiter once
 when the timer and the signal coincide

---
 kio/sync/baton.h | 272 +++++++----------------------------------------
 1 file changed, 39 insertions(+), 233 deletions(-)

diff --git a/kio/sync/baton.h b/kio/sync/baton.h
index eb03e29..8258135 100644
--- a/kio/sync/baton.h
+++ b/kio/sync/baton.h
@@ -9,7 +9,8 @@
 #include <cassert>
 #include <chrono>
 #include <coroutine>
-#include <liburing.h>
+#include <exception>
+#include <memory>
 
 #include "kio/core/coro.h"
 #include "kio/core/worker.h"
@@ -123,136 +124,23 @@ namespace kio::sync
         {
             co_await io::SwitchToWorker(owner_);
 
-            struct TimeoutState
-            {
-                AsyncBaton& baton;
-                std::chrono::nanoseconds duration;
-
-                uint64_t timer_op_id = static_cast<uint64_t>(-1);
-                __kernel_timespec ts{};
-                bool timer_submitted = false;
-                bool baton_signaled = false;
-                std::atomic<bool> resumed{false};
+            if (ready()) co_return true;
 
-                bool await_ready() noexcept
-                {
-                    if (baton.state_.load(std::memory_order_acquire) == SET)
-                    {
-                        baton_signaled = true;
-                        return true;
-                    }
-                    return false;
-                }
+            // The timer may outlive this call (and this baton) when the signal wins, so what it
+            // shares with us must outlive both.
+            const auto timer = std::make_shared<TimerState>(this);
+            start_timer(owner_, timer, timeout).detach();
 
-                bool await_suspend(std::coroutine_handle<> h) noexcept
-                {
-                    // Step 1: Register with baton FIRST
-                    baton.waiter_.store(h, std::memory_order_relaxed);
-                    std::atomic_thread_fence(std::memory_order_release);
-
-                    if (uint8_t expected = NOT_SET; !baton.state_.compare_exchange_strong(expected, WAITING, std::memory_order_acq_rel, std::memory_order_acquire))
-                    {
-                        // Baton already SET - no timeout needed
-                        baton_signaled = true;
-                        return false;
-                    }
-
-                    // Set up the timer (baton is now in WAITING state)
-                    timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
-                    io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);
-
-                    ts.tv_sec = std::chrono::duration_cast<std::chrono::seconds>(duration).count();
-                    ts.tv_nsec = (duration % std::chrono::seconds(1)).count();
-
-                    io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_));
-                    if (!sqe)
-                    {
-                        // Failed to get SQE - must unregister from baton
-                        io::internal::WorkerAccess::release_op_id(baton.owner_, timer_op_id);
-                        timer_op_id = static_cast<uint64_t>(-1);
-
-                        if (uint8_t state = WAITING; baton.state_.compare_exchange_strong(state, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                        {
-                            // Successfully unregistered - immediate timeout
-                            baton_signaled = false;
-                            return false;
-                        }
-
-                        // Baton was signaled while we were cleaning up
-                        baton_signaled = true;
-                        return false;
-                    }
+            if (timer->error) std::rethrow_exception(timer->error);
 
-                    io_uring_prep_timeout(sqe, &ts, 0, 0);
-                    io_uring_sqe_set_data64(sqe, timer_op_id);
-                    timer_submitted = true;
+            // The timer could not be armed: immediate timeout
+            if (timer->expired) co_return ready();
 
-                    return true;
-                }
-
-                void await_resume()
-                {
-                    // Protect against double-resume
-                    if (resumed.exchange(true, std::memory_order_acq_rel))
-                    {
-                        // Already resumed once, this is a spurious resume
-                        return;
-                    }
-
-                    // Check if result was already determined in await_suspend
-                    if (!timer_submitted)
-                    {
-                        return;
-                    }
-
-                    // Determine who resumed us by checking baton state
-
-                    if (baton.state_.load(std::memory_order_acquire) == SET)
-                    {
-                        // Baton signaled us
-                        baton_signaled = true;
-
-                        // We cannot safely cancel the timer because:
-                        // The timer CQE might already be in the completion queue
-                        // io_uring_prep_timeout_remove creates a NEW CQE with different op_id
-                        // The original timer CQE will still arrive with timer_op_id
-                        //
-                        // Solution: Let the timer complete naturally and ignore its CQE
-                        // by replacing the handler with noop_coroutine()
-                        io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
-
-                        // DO NOT attempt to cancel - just let it timeout naturally
-                        // The noop handler will safely consume the CQE when it arrives
-                    }
-                    else
-                    {
-                        // We were resumed by timer CQE
-                        // Try to unregister from baton
-                        if (uint8_t expected = WAITING; baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                        {
-                            // Successfully unregistered - pure timeout
-                            baton_signaled = false;
-                        }
-                        else
-                        {
-                            // CAS failed - baton was SET concurrently
-                            // Report timeout (we're processing timer CQE)
-                            // Second resume from the task queue will be caught by double-resume check
-                            baton_signaled = false;
-                        }
-                        // worker will release timer_op_id when processing the CQE
-                    }
-
-                    // Mark the timer as no longer active
-                    timer_submitted = false;
-                }
-
-                [[nodiscard]] bool was_signaled() const noexcept { return baton_signaled; }
-            };
+            co_await wait();
 
-            TimeoutState state{*this, timeout};
-            co_await state;
-            co_return state.was_signaled();
+            // Detach from the timer: it completes on its own later and finds nobody to wake
+            timer->baton = nullptr;
+            co_return !timer->expired;
         }
 
     private:
@@ -267,123 +155,41 @@ namespace kio::sync
         std::atomic<uint8_t> state_{NOT_SET};
         std::atomic<std::coroutine_handle<>> waiter_{nullptr};
 
-        struct TimeoutAwaiter
+        struct TimerState
         {
-            AsyncBaton& baton;
-            std::chrono::nanoseconds duration;
-            bool& timer_won_out;
-            bool& baton_won_out;
-
-            // Internal state
-            uint64_t timer_op_id = -1;
-            // Stable storage for io_uring to read
-            struct __kernel_timespec ts{};
+            AsyncBaton* baton;  // nullptr once the wait is over
+            bool expired = false;
+            std::exception_ptr error{};
+        };
 
-            bool await_ready() const noexcept
+        static DetachedTask start_timer(io::Worker& owner, std::shared_ptr<TimerState> state, std::chrono::nanoseconds timeout)
+        {
+            try
             {
-                // If we are in a race cleanup loop (Timer won but Baton posted),
-                // we are NOT ready and must suspend to catch the Baton post.
-                if (timer_won_out) return false;
-                return baton.ready();
+                (void) co_await owner.async_sleep(timeout);
             }
-
-            bool await_suspend(std::coroutine_handle<> h) noexcept
+            catch (...)
             {
-                if (timer_won_out)
-                {
-                    // Cleanup pass: We know Baton posted us. Just suspend and wait for it.
-                    return true;
-                }
-
-                // 1. Prepare Timer
-                timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
-                io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);
-
-                ts.tv_sec = std::chrono::duration_cast<std::chrono::seconds>(duration).count();
-                ts.tv_nsec = (duration % std::chrono::seconds(1)).count();
-
-                if (io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_)))
-                {
-                    io_uring_prep_timeout(sqe, &ts, 0, 0);
-                    io_uring_sqe_set_data64(sqe, timer_op_id);
-                }
-                else
-                {
-                    // Ring full fallback: treat as immediate timeout
-                    io::internal::WorkerAccess::release_op_id(baton.owner_, timer_op_id);
-                    timer_won_out = true;
-                    return false;
-                }
-
-                // Register Baton
-                baton.waiter_.store(h, std::memory_order_relaxed);
-                std::atomic_thread_fence(std::memory_order_release);
-
-                if (uint8_t expected = NOT_SET; baton.state_.compare_exchange_strong(expected, WAITING, std::memory_order_acq_rel, std::memory_order_acquire))
-                {
-                    return true;  // Successfully suspended
-                }
-
-                // Baton is SET
-                // Cancel the timer immediately.
-                // We replace the callback with noop so the CQE is harmless.
-                io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
+                state->error = std::current_exception();
+                co_return;
+            }
 
-                // Try to remove the timeout from kernel to be clean
-                if (io_uring_sqe* cancel_sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_)))
-                {
-                    io_uring_prep_timeout_remove(cancel_sqe, timer_op_id, 0);
-                    io_uring_sqe_set_data64(cancel_sqe, io::internal::WorkerAccess::get_op_id(baton.owner_));
-                }
+            if (state->baton == nullptr) co_return;
 
-                // Resume immediately
-                return false;
+            uint8_t expected = WAITING;
+            if (state->baton->state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
+            {
+                // The waiter is ours to wake: a later notify() finds nobody waiting.
+                state->expired = true;
+                state->baton->waiter_.load(std::memory_order_relaxed).resume();
             }
-
-            void await_resume()
+            else if (expected == NOT_SET)
             {
-                if (baton.ready())
-                {
-                    // Baton Signaled!
-                    baton_won_out = true;
-
-                    // If we started a timer, we must detach it
-                    if (timer_op_id != static_cast<uint64_t>(-1))
-                    {
-                        // Detach handler so future timeout/cancel CQE doesn't resume us
-                        io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
-
-                        // Request kernel removal
-                        if (io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_)))
-                        {
-                            io_uring_prep_timeout_remove(sqe, timer_op_id, 0);
-                            // We grab a throwaway op_id for the removal just to keep accounting straight
-                            io_uring_sqe_set_data64(sqe, io::internal::WorkerAccess::get_op_id(baton.owner_));
-                        }
-                    }
-                }
-                else
-                {
-                    // Baton doesn't ready. Must be Timer?
-                    // Try to unregister from Baton.
-                    if (uint8_t expected = WAITING; baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                    {
-                        // Successfully removed from Baton. Pure Timeout.
-                        timer_won_out = true;
-                        // Timer op_id is released by Worker loop when processing CQE
-                    }
-                    else
-                    {
-                        // CAS Failed. Baton is SET.
-                        // This means Notify happened concurrently and posted us to Task Queue.
-                        // We are currently running (via Timer).
-                        // We MUST loop again to consume the pending Baton resume.
-                        timer_won_out = true;
-                        // baton_won_out stays false for now, ensuring loop continues
-                    }
-                }
+                // Not waiting yet, the timer failed at once
+                state->expired = true;
             }
-        };
+            // else notify() came first and has already scheduled the waiter
+        }
     };
 
 }  // namespace kio::sync
-- 
2.43.0


From 49699e422bd864847cbd555679f19f4e22ae27ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 17/54] fix: AsyncEvent::notify must hand waiters over through
 WorkerAccess

---
 kio/sync/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/sync/event.h b/kio/sync/event.h
index a52631f..fc94999 100644
--- a/kio/sync/event.h
+++ b/kio/sync/event.h
@@ -112,7 +112,7 @@ namespace kio::sync
                 if (hptr)
                 {
                     std::coroutine_handle<> h = std::coroutine_handle<>::from_address(hptr);
-                    owner_.post(h);
+                    io::internal::WorkerAccess::post(owner_, h);
                 }
 
                 curr = next;
-- 
2.43.0


From 2b9c777535270c3a622cc63804fbc13e41a5e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 18/54] fix: AsyncEvent::notify must wake all waiters however
 many the owner's queue holds

---
 kio/sync/event.h | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/kio/sync/event.h b/kio/sync/event.h
index fc94999..b82adfc 100644
--- a/kio/sync/event.h
+++ b/kio/sync/event.h
@@ -80,6 +80,34 @@ namespace kio::sync
 
         io::Worker& owner_;
 
+        // Like SwitchToWorker, but never runs inline in the caller
+        struct PostToWorker
+        {
+            io::Worker& worker;
+            bool await_ready() const noexcept { return false; }
+            void await_suspend(std::coroutine_handle<> h) const { io::internal::WorkerAccess::post(worker, h); }
+            void await_resume() const noexcept {}
+        };
+
+        static DetachedTask resume_all(io::Worker& owner, Awaiter* curr)
+        {
+            co_await PostToWorker{owner};
+
+            while (curr)
+            {
+                // read next with acquire to observe what the waiter published; the waiter is gone once resumed
+                auto* next = curr->next.load(std::memory_order_acquire);
+
+                // read handle pointer
+                if (void* hptr = curr->handle_ptr.load(std::memory_order_acquire))
+                {
+                    std::coroutine_handle<>::from_address(hptr).resume();
+                }
+
+                curr = next;
+            }
+        }
+
     public:
         explicit AsyncEvent(io::Worker& owner) : owner_(owner) {}
 
@@ -100,23 +128,9 @@ namespace kio::sync
                 return;  // Already set
             }
 
-            auto* curr = static_cast<Awaiter*>(old_head);
-
-            while (curr)
-            {
-                // read next with acquire to observe what the waiter published
-                auto* next = curr->next.load(std::memory_order_acquire);
-
-                // read handle pointer
-                void* hptr = curr->handle_ptr.load(std::memory_order_acquire);
-                if (hptr)
-                {
-                    std::coroutine_handle<> h = std::coroutine_handle<>::from_address(hptr);
-                    io::internal::WorkerAccess::post(owner_, h);
-                }
-
-                curr = next;
-            }
+            // One hand-off wakes them all, however many they are: posting every waiter on its own
+            // would lose those the owner's queue has no room for.
+            if (old_head) resume_all(owner_, static_cast<Awaiter*>(old_head)).detach();
         }
 
 
-- 
2.43.0


From de715b2049d65bb3741c3f22e3ebb9847b6446dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 19/54] fix: when_any must count a task that ends with an
 exception as finished

---
 kio/sync/when_any.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kio/sync/when_any.h b/kio/sync/when_any.h
index 9596563..1cf3943 100644
--- a/kio/sync/when_any.h
+++ b/kio/sync/when_any.h
@@ -43,8 +43,20 @@ namespace kio::sync
         template<size_t Index, size_t N, typename Task>
         DetachedTask run_and_notify(std::shared_ptr<WhenAnyState<N>> state, Task task)
         {
-            // Run the task
-            co_await task;
+            // Run the task. A task that ends with an exception has finished too: when_any
+            // must not wait for it for ever.
+            try
+            {
+                co_await task;
+            }
+            catch (const std::exception& e)
+            {
+                ALOG_ERROR("when_any: task {} failed: {}", Index, e.what());
+            }
+            catch (...)
+            {
+                ALOG_ERROR("when_any: task {} failed with an unknown exception", Index);
+            }
 
             // Try to win the race
             if (state->try_win(Index))
-- 
2.43.0


From 524122d74d1085f3f36a1e294ac4c4f5288aa151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 20/54] fix: when_any must own its tasks until it starts

---
 kio/sync/when_any.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kio/sync/when_any.h b/kio/sync/when_any.h
index 1cf3943..5fa8813 100644
--- a/kio/sync/when_any.h
+++ b/kio/sync/when_any.h
@@ -85,9 +85,11 @@ namespace kio::sync
      * Returns the index of the first task that completes.
      * All other tasks continue running in the background.
      *
+     * The tasks are taken by value: this coroutine starts lazily, possibly after the temporaries
+     * it was called with are gone.
      **/
     template<typename... Tasks>
-    Task<size_t> when_any(io::Worker& worker, Tasks&&... tasks)
+    Task<size_t> when_any(io::Worker& worker, Tasks... tasks)
     {
         constexpr size_t N = sizeof...(Tasks);
         static_assert(N > 0, "when_any requires at least one task");
@@ -96,7 +98,7 @@ namespace kio::sync
         auto state = std::make_shared<detail::WhenAnyState<N>>(worker);
 
         // Spawn all tasks
-        detail::spawn_tasks_impl(state, std::index_sequence_for<Tasks...>{}, std::forward<Tasks>(tasks)...);
+        detail::spawn_tasks_impl(state, std::index_sequence_for<Tasks...>{}, std::move(tasks)...);
 
         // Wait for first completion
         co_await state->done.wait();
-- 
2.43.0


From e2c1c76d8ec2d89058fbea0211daa80e6ee39c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 21/54] fix: a worker without a ring must not tear one down and
 close descriptor 0

---
 kio/core/worker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 7cf4bd6..c27648f 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -107,6 +107,9 @@ namespace kio::io
     {
         config_.check();
 
+        // no ring yet: 0 is a valid descriptor, and not ours
+        ring_.ring_fd = -1;
+
         wakeup_fd_ = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
         if (wakeup_fd_ < 0)
         {
@@ -129,6 +132,7 @@ namespace kio::io
 
         if (const int ret = io_uring_queue_init_params(static_cast<int>(config_.uring_queue_depth), &ring_, &params); ret < 0)
         {
+            ring_.ring_fd = -1;
             throw std::system_error(-ret, std::system_category(), "io_uring_queue_init failed");
         }
 
-- 
2.43.0


From 35ae98c90e37d279a941e5ff05c7a5af597c54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 22/54] fix: an invalid worker configuration must be refused
 before the queue is built from it

---
 kio/core/worker.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index c27648f..4651cb1 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -14,6 +14,16 @@
 
 namespace kio::io
 {
+    namespace
+    {
+        // Members are built from the configuration, so it must be refused before them
+        const WorkerConfig &validated(const WorkerConfig &config)
+        {
+            config.check();
+            return config;
+        }
+    }  // namespace
+
     void Worker::check_kernel_version()
     {
         utsname buf{};
@@ -103,10 +113,8 @@ namespace kio::io
     }
 
     Worker::Worker(const size_t id, const WorkerConfig &config, std::function<void(Worker &)> worker_init_callback) :
-        config_(config), id_(id), task_queue_(config.task_queue_capacity), worker_init_callback_(std::move(worker_init_callback))
+        config_(validated(config)), id_(id), task_queue_(config.task_queue_capacity), worker_init_callback_(std::move(worker_init_callback))
     {
-        config_.check();
-
         // no ring yet: 0 is a valid descriptor, and not ours
         ring_.ring_fd = -1;
 
-- 
2.43.0


From befbe20dc10d0e0d5531e7db6c7a3645078eb237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 23/54] fix: a NaN growth factor is not greater than 1

---
 kio/core/worker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index c5ab448..bc07550 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -90,7 +90,7 @@ namespace kio::io
 
         void check() const
         {
-            if (uring_queue_depth == 0 || uring_submit_batch_size == 0 || tcp_backlog == 0 || op_slots_growth_factor <= 1.0f)
+            if (uring_queue_depth == 0 || uring_submit_batch_size == 0 || tcp_backlog == 0 || !(op_slots_growth_factor > 1.0f))
             {
                 throw std::invalid_argument(
                         "Invalid worker config, some fields cannot be zero,"
-- 
2.43.0


From 1124ace4b7d2c19b0145fbae9c6c186be79c3ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 24/54] fix: a start-up callback throwing anything must not
 terminate the process

---
 kio/core/worker.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 4651cb1..b6c4201 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -240,6 +240,12 @@ namespace kio::io
             signal_init_complete();
             signal_shutdown_complete();
         }
+        catch (...)
+        {
+            ALOG_ERROR("Worker {} failed during run(): unknown exception", id_);
+            signal_init_complete();
+            signal_shutdown_complete();
+        }
     }
 
     int Worker::submit_sqes_wait()
-- 
2.43.0


From 13a27eb8cf5bd5ffdf29be614258f16fc3f01f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 25/54] fix: a worker that fails after start-up must not count
 its latches below zero

---
 kio/core/worker.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index bc07550..20a51f0 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -155,6 +155,8 @@ namespace kio::io
 
         std::latch init_latch_{1};
         std::latch shutdown_latch_{1};
+        std::atomic<bool> init_signaled_{false};
+        std::atomic<bool> shutdown_signaled_{false};
         std::stop_source stop_source_;
         // updated by all run method
         std::stop_token stop_token_;
@@ -201,8 +203,16 @@ namespace kio::io
          * @return bool
          */
         [[nodiscard]] bool is_on_worker_thread() const;
-        void signal_init_complete() { init_latch_.count_down(); }
-        void signal_shutdown_complete() { shutdown_latch_.count_down(); }
+        // Both can be reached twice when the worker fails after having signaled; a latch must not be
+        // counted below zero, it would never be open again.
+        void signal_init_complete()
+        {
+            if (!init_signaled_.exchange(true)) init_latch_.count_down();
+        }
+        void signal_shutdown_complete()
+        {
+            if (!shutdown_signaled_.exchange(true)) shutdown_latch_.count_down();
+        }
 
         /**
          *@brief Gets a std::jthread stop token linked to the worker thread
-- 
2.43.0


From b86219185ee4300d7f7453cc0a692d1217cc5050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 26/54] fix: a pool that cannot create all its threads must
 stop those it created

---
 kio/core/worker_pool.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker_pool.cpp b/kio/core/worker_pool.cpp
index 1fcac47..c7aa4a6 100644
--- a/kio/core/worker_pool.cpp
+++ b/kio/core/worker_pool.cpp
@@ -23,9 +23,22 @@ namespace kio::io
         }
 
         // Start threads after all workers are created
-        for (const auto &worker: workers_)
+        try
         {
-            worker_threads_.emplace_back([&w = *worker] { w.loop_forever(); });
+            for (const auto &worker: workers_)
+            {
+                worker_threads_.emplace_back([&w = *worker] { w.loop_forever(); });
+            }
+        }
+        catch (...)
+        {
+            // A thread could not be created. Those already running are joined when the members
+            // are destroyed, so they must be told to stop.
+            for (const auto &worker: workers_)
+            {
+                (void) worker->request_stop();
+            }
+            throw;
         }
 
         // Wait for all workers to be fully initialized
-- 
2.43.0


From 87f597d57a43118800abcbe1a78bcac30c754118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 27/54] fix: a file keeps its worker whether or not it exists
 and however it is named

---
 kio/fs/fs.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/kio/fs/fs.cpp b/kio/fs/fs.cpp
index 4feb4b2..e57d1d1 100644
--- a/kio/fs/fs.cpp
+++ b/kio/fs/fs.cpp
@@ -9,24 +9,31 @@
 
 namespace kio
 {
-    // always return an absolute path for hashing
-    static std::string absolute_path(const std::string_view path)
+    // Always return an absolute path with the links resolved for hashing, whether the file exists or not:
+    // a file must keep its worker when it is created or removed.
+    static std::string absolute_path(const std::filesystem::path &path)
     {
-        try
+        constexpr int max_links = 40;  // as the kernel
+        std::error_code ec;
+        auto target = std::filesystem::absolute(path, ec);
+        if (!ec) target = std::filesystem::weakly_canonical(target, ec);
+        // what is left can only be a link to a file that does not exist yet
+        for (int i = 0; i < max_links && !ec; i++)
         {
-            return std::filesystem::canonical(path).string();
-        }
-        catch (const std::filesystem::filesystem_error &e)
-        {
-            return std::filesystem::absolute(path).string();
+            std::error_code absent;
+            if (!std::filesystem::is_symlink(std::filesystem::symlink_status(target, absent))) break;
+            const auto link = std::filesystem::read_symlink(target, ec);
+            if (!ec) target = std::filesystem::weakly_canonical(target.parent_path() / link, ec);
         }
+        // such a path cannot be opened either: opening it reports why
+        return ec ? path.string() : target.string();
     }
 
     FileManager::FileManager(const size_t io_worker_count, const io::WorkerConfig &config) : pool_(io_worker_count, config) { ALOG_INFO("started file manager with {} workers", io_worker_count); }
 
     Task<Result<File> > FileManager::async_open(std::filesystem::path path, const int flags, const mode_t mode)
     {
-        auto worker_id = pool_.get_worker_id_by_key(absolute_path(path.string()));
+        auto worker_id = pool_.get_worker_id_by_key(absolute_path(path));
         auto *worker = pool_.get_worker(worker_id);
         if (!worker)
         {
-- 
2.43.0


From 07b0dab0188bcf38665ad7ea1c2da98f81093e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 28/54] fix: a file move-assigned from another manager keeps
 its pool

---
 kio/fs/fs.cpp | 4 ++--
 kio/fs/fs.h   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kio/fs/fs.cpp b/kio/fs/fs.cpp
index e57d1d1..0597c2b 100644
--- a/kio/fs/fs.cpp
+++ b/kio/fs/fs.cpp
@@ -51,7 +51,7 @@ namespace kio
 
     Task<Result<size_t> > File::async_read(std::span<char> buf, const uint64_t offset) const
     {
-        auto *worker = pool_.get_worker(worker_id_);
+        auto *worker = pool_->get_worker(worker_id_);
         if (!worker)
         {
             co_return std::unexpected(Error::from_errno(EINVAL));
@@ -68,7 +68,7 @@ namespace kio
     // NOSONAR: buffer lifetime is controlled by caller, safe across suspend
     Task<Result<size_t> > File::async_write(std::span<const char> buf, const uint64_t offset) const
     {
-        auto *worker = pool_.get_worker(worker_id_);
+        auto *worker = pool_->get_worker(worker_id_);
         if (!worker)
         {
             co_return std::unexpected(Error::from_errno(EINVAL));
diff --git a/kio/fs/fs.h b/kio/fs/fs.h
index 0180d15..95ee8dc 100644
--- a/kio/fs/fs.h
+++ b/kio/fs/fs.h
@@ -15,11 +15,11 @@ namespace kio
     class File
     {
         int fd_{-1};
-        io::IOPool &pool_;
+        io::IOPool *pool_;
         size_t worker_id_{0};
 
     public:
-        File(const int fd, io::IOPool &pool, size_t worker_id) : fd_(fd), pool_(pool), worker_id_(worker_id) { assert(fd_ >= 0); }
+        File(const int fd, io::IOPool &pool, size_t worker_id) : fd_(fd), pool_(&pool), worker_id_(worker_id) { assert(fd_ >= 0); }
 
         // File is not copyable
         File(const File &) = delete;
@@ -40,7 +40,7 @@ namespace kio
             {
                 if (fd_ != -1) ::close(fd_);  // Close existing fd first
                 fd_ = other.fd_;
-                // pool_ reference stays bound to the same pool (can't be rebound)
+                pool_ = other.pool_;
                 worker_id_ = other.worker_id_;
                 other.fd_ = -1;
             }
-- 
2.43.0


From e0eb78332f1636d51571ae042c66751ec6cda913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 29/54] fix: whether a metrics request is too large must not
 depend on its segmentation

---
 kio/metrics/server.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index 5af7d8b..855d3c0 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -183,6 +183,13 @@ namespace kio
             // Try Parse
             auto req = HttpRequest::parse(buffer.readable_span());
 
+            // If the header is too big, kill the connection. Complete or not: how much of it arrives at once must not matter.
+            if ((req.complete ? req.header_length : buffer.remaining()) > kMaxRequestSize)
+            {
+                ALOG_WARN("Metrics request too large, closing connection");
+                break;
+            }
+
             if (req.complete)
             {
                 // We have a full HTTP request
@@ -224,13 +231,6 @@ namespace kio
                 // Another option would have been keepalive
                 break;
             }
-
-            // If the buffer gets too big without finding a delimiter, kill the connection
-            if (buffer.remaining() > kMaxRequestSize)
-            {
-                ALOG_WARN("Metrics request too large, closing connection");
-                break;
-            }
         }
         // fd destructor closes socket
     }
-- 
2.43.0


From 7e166341f5d771d086024d829f874c7b9d758393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 30/54] fix: a failing accept must not end or monopolise the
 metrics server

---
 kio/metrics/server.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index 855d3c0..d0e9168 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -66,6 +66,15 @@ namespace kio
             }
         };
 
+        // Lets the worker process other completions before the coroutine goes on
+        struct Yield
+        {
+            Worker& worker;
+            bool await_ready() const noexcept { return false; }
+            void await_suspend(std::coroutine_handle<> h) const { io::internal::WorkerAccess::post(worker, h); }
+            void await_resume() const noexcept {}
+        };
+
     }  // anonymous namespace
 
     MetricsServer::MetricsServer(std::string bind_addr, const uint16_t port, io::WorkerConfig config) : bind_addr_(std::move(bind_addr)), port_(port)
@@ -142,7 +151,15 @@ namespace kio
             sockaddr_storage client_addr{};
             socklen_t addr_len = sizeof(client_addr);
 
-            auto res = co_await worker.async_accept(server_fd, reinterpret_cast<sockaddr*>(&client_addr), &addr_len);
+            Result<int> res = std::unexpected(Error::from_errno(EAGAIN));
+            try
+            {
+                res = co_await worker.async_accept(server_fd, reinterpret_cast<sockaddr*>(&client_addr), &addr_len);
+            }
+            catch (const std::exception& e)
+            {
+                ALOG_WARN("Metrics accept failed: {}", e.what());
+            }
 
             if (!res.has_value())
             {
@@ -150,6 +167,8 @@ namespace kio
                 {
                     ALOG_WARN("Metrics accept failed: {}", res.error().value);
                 }
+                // it may fail at once, for want of a slot: what holds the slots must be able to complete
+                co_await Yield{worker};
                 continue;
             }
 
-- 
2.43.0


From 8eb904164bc1a0973ed8f919fda27d029c91b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 31/54] fix: a metrics client that disconnects early must not
 raise SIGPIPE

---
 kio/metrics/server.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index d0e9168..60d93a8 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -4,6 +4,7 @@
 
 #include "kio/metrics/server.h"
 
+#include <csignal>
 #include <unistd.h>
 #include <utility>
 
@@ -101,7 +102,17 @@ namespace kio
         }
 
         // start the event loop in a thread
-        ev_thread_ = std::jthread([&] { worker_->loop_forever(); });
+        ev_thread_ = std::jthread(
+                [&]
+                {
+                    // writing to a client that has gone away must not kill the process
+                    sigset_t signals;
+                    sigemptyset(&signals);
+                    sigaddset(&signals, SIGPIPE);
+                    pthread_sigmask(SIG_BLOCK, &signals, nullptr);
+
+                    worker_->loop_forever();
+                });
     }
 
     void MetricsServer::stop()
-- 
2.43.0


From 87d8ed03ad0a542ad9571c13fe198f37c5adf86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 32/54] fix: closing a metrics connection must not lose the
 response when input is left

---
 kio/metrics/server.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index 60d93a8..3852b75 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -259,6 +259,14 @@ namespace kio
 
                 // For a simple metrics server, we close after one request (Connection: close)
                 // Another option would have been keepalive
+                // Closing while input is unread would reset the connection and lose what the client has not received
+                // yet: finish our side and read until the client is done
+                ::shutdown(fd.get(), SHUT_WR);
+                while (true)
+                {
+                    const auto rest = co_await worker.async_read(fd.get(), std::span(response.data(), response.size()));
+                    if (!rest.has_value() || rest.value() == 0) break;
+                }
                 break;
             }
         }
-- 
2.43.0


From 8cddf9cb4677a55c0897dacc475c4b250f56a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 33/54] fix: stopping a metrics server that is not running or
 just starting must end it

---
 kio/metrics/server.cpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index 3852b75..f8ed5eb 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -101,6 +101,12 @@ namespace kio
             return;
         }
 
+        if (server_fd_ < 0)
+        {
+            ALOG_WARN("MetricsServer has been stopped");
+            return;
+        }
+
         // start the event loop in a thread
         ev_thread_ = std::jthread(
                 [&]
@@ -117,30 +123,20 @@ namespace kio
 
     void MetricsServer::stop()
     {
-        if (worker_ == nullptr)
-        {
-            ALOG_WARN("MetricsServer is not running");
-            return;
-        }
-
-        if (!worker_->is_running())
+        // also when the event loop has not come up yet: it ends as soon as it does
+        if (ev_thread_.joinable())
         {
-            ALOG_WARN("MetricsServer is not running");
-            return;
-        }
+            ALOG_INFO("Stopping MetricsServer...");
 
-        ALOG_INFO("Stopping MetricsServer...");
-
-        // Stop worker
-        if (worker_->request_stop())
-        {
-            worker_->wait_shutdown();
+            if (!worker_->request_stop())
+            {
+                ALOG_WARN("Failed to stop worker");
+            }
+            ev_thread_.join();
         }
         else
         {
-            ALOG_WARN("Failed to stop worker");
-            // manually join the worker thread
-            ev_thread_.join();
+            ALOG_WARN("MetricsServer is not running");
         }
 
         // Close server socket
-- 
2.43.0


From 9a544177ef69e0dca1c75fe70ac947614fcbac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 34/54] fix: a coroutine that posts itself must not keep its
 worker from completing operations

---
 kio/core/worker.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index b6c4201..d442384 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -270,10 +270,17 @@ namespace kio::io
             {
                 ALOG_TRACE("Worker {} waked up", id_);
                 // This was a wake-up event. Drain the task queue.
+                // What is posted meanwhile wakes the worker again: a coroutine that posts itself must not keep the
+                // completions of others from being processed.
+                std::vector<std::coroutine_handle<>> ready;
                 std::coroutine_handle<> h;
                 while (task_queue_.try_pop(h))
                 {
-                    h.resume();
+                    ready.push_back(h);
+                }
+                for (const auto &next: ready)
+                {
+                    next.resume();
                 }
 
                 // Only re-arm the wakeup read if not stopping
-- 
2.43.0


From 191bf28f3cea48b8cd001767e6c489dffefaa1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 35/54] fix: accepting into a socket address must leave room
 for the address

---
 kio/core/worker.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index 20a51f0..1e5a27d 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -272,7 +272,12 @@ namespace kio::io
         // Io methods
         //=========================================================
         Task<Result<int>> async_accept(int server_fd, sockaddr* addr, socklen_t* addrlen);
-        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr) { return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen); }
+        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr)
+        {
+            // the room for the peer's address, replaced by its length
+            addr.addrlen = sizeof(addr.addr);
+            return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen);
+        }
         /**
          * @brief Asynchronously reads data from a streaming file descriptor (e.g., socket, pipe).
          *
-- 
2.43.0


From e31d2481216d818bf91ded62eed09ff9f02c6d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 36/54] fix: an entry with a huge size field must not be read
 beyond its buffer

---
 bitcask/src/entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcask/src/entry.cpp b/bitcask/src/entry.cpp
index 5f86e63..7f56134 100644
--- a/bitcask/src/entry.cpp
+++ b/bitcask/src/entry.cpp
@@ -67,7 +67,7 @@ namespace bitcask
         const auto crc = read_le<uint32_t>(buffer.data());
         const auto size = read_le<uint64_t>(buffer.data() + 4);
 
-        if (buffer.size() < kEntryFixedHeaderSize + size)
+        if (size > buffer.size() - kEntryFixedHeaderSize)
         {
             return std::unexpected(Error{ErrorCategory::Serialization, kIoNeedMoreData});
         }
-- 
2.43.0


From 23e0f3353fc4b7bf817b797a183ec4cf488d25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 37/54] fix: file ids must not be reused within a second, after
 a restart or when the clock steps back

---
 bitcask/include/file_id.h   | 18 ++++++++++++++++++
 bitcask/include/partition.h |  1 +
 bitcask/src/partition.cpp   | 16 ++++++++++++----
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/bitcask/include/file_id.h b/bitcask/include/file_id.h
index 71384b5..d133857 100644
--- a/bitcask/include/file_id.h
+++ b/bitcask/include/file_id.h
@@ -83,7 +83,9 @@ namespace bitcask
                 if (sequence_ == 0xFFFF)
                 {
                     // This is a rare edge case: generating >65k files in 1 second.
+                    // Borrow from the next second: an ID must never be handed out twice.
                     ALOG_WARN("FileIdGenerator: sequence overflow for partition {}", partition_id_);
+                    now = ++last_timestamp_;
                     sequence_ = 0;
                 }
                 else
@@ -95,6 +97,22 @@ namespace bitcask
             return FileID{partition_id_, now, sequence_}.encode();
         }
 
+        /**
+         * @brief Take note of an ID that is already in use on disk.
+         * Later IDs are greater, even if the clock has not advanced (or went back) since it was generated.
+         */
+        void observe(const uint64_t id)
+        {
+            const auto used = FileID::decode(id);
+            if (used.partition != partition_id_) return;
+
+            if (used.timestamp_sec > last_timestamp_ || (used.timestamp_sec == last_timestamp_ && used.sequence > sequence_))
+            {
+                last_timestamp_ = used.timestamp_sec;
+                sequence_ = used.sequence;
+            }
+        }
+
         [[nodiscard]] uint32_t current_timestamp() const { return last_timestamp_; }
 
         [[nodiscard]] uint16_t partition_id() const { return partition_id_; }
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 4e0a8f3..902f068 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -63,6 +63,7 @@ namespace bitcask
          * Returns a sorted list (oldest to newest) using file_id_compare_by_time
          */
         std::vector<uint64_t> scan_data_files() const;
+        std::vector<uint64_t> scan_files(std::string_view prefix, std::string_view extension) const;
         // read hint file to build keydir, the caller have to make sure the file exists
         /**
          * @brief Recover a single file using a hint file (fast path)
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 013ab3a..cc81506 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -272,7 +272,9 @@ DetachedTask Partition::compaction_loop()
 
 
 // we get only files that match our data file format and silently skip all the rest
-std::vector<uint64_t> Partition::scan_data_files() const
+std::vector<uint64_t> Partition::scan_data_files() const { return scan_files(kDataFilePrefix, kDataFileExtension); }
+
+std::vector<uint64_t> Partition::scan_files(const std::string_view prefix, const std::string_view extension) const
 {
     const std::filesystem::path dir_to_scan = db_path();
     if (!std::filesystem::exists(dir_to_scan) || !std::filesystem::is_directory(db_path()))
@@ -284,8 +286,8 @@ std::vector<uint64_t> Partition::scan_data_files() const
     ALOG_DEBUG("Scanning data directory {}", dir_to_scan.string());
 
     std::vector<uint64_t> result;
-    constexpr size_t prefix_len = kDataFilePrefix.size();
-    constexpr size_t ext_len = kDataFileExtension.size();
+    const size_t prefix_len = prefix.size();
+    const size_t ext_len = extension.size();
 
 
     for (const auto& dir_entry: std::filesystem::directory_iterator(dir_to_scan))
@@ -297,7 +299,7 @@ std::vector<uint64_t> Partition::scan_data_files() const
         std::string_view sv(file_name);
 
         // skip early
-        if (sv.size() <= (prefix_len + ext_len) || !sv.starts_with(kDataFilePrefix) || !sv.ends_with(kDataFileExtension))
+        if (sv.size() <= (prefix_len + ext_len) || !sv.starts_with(prefix) || !sv.ends_with(extension))
         {
             continue;
         }
@@ -471,6 +473,12 @@ Task<Result<void>> Partition::recover()
     for (auto file_id: files)
     {
         stats_.data_files[file_id].total_bytes = std::filesystem::file_size(get_data_file_path(file_id));
+        file_id_gen_.observe(file_id);
+    }
+    // An orphan hint file must not be taken for the hint of a new data file
+    for (const auto file_id: scan_files(kHintFilePrefix, kHintFileExtension))
+    {
+        file_id_gen_.observe(file_id);
     }
 
     // Recover each file
-- 
2.43.0


From 2fbd333d52499cf872bf3b2aad183f4b019da417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 38/54] fix: a get must survive compaction, eviction and
 overwrites while it is reading

---
 bitcask/include/fd_cache.h  | 12 ++++++--
 bitcask/include/partition.h |  3 +-
 bitcask/src/fd_cache.cpp    | 31 +++++++++++++++------
 bitcask/src/partition.cpp   | 55 +++++++++++++++++++++++++++----------
 4 files changed, 75 insertions(+), 26 deletions(-)

diff --git a/bitcask/include/fd_cache.h b/bitcask/include/fd_cache.h
index 72e2c7a..94a0f47 100644
--- a/bitcask/include/fd_cache.h
+++ b/bitcask/include/fd_cache.h
@@ -5,6 +5,8 @@
 #ifndef KIO_FD_CACHE_H
 #define KIO_FD_CACHE_H
 #include <list>
+#include <memory>
+#include <unordered_map>
 
 #include "kio/core/worker.h"
 #include "file_handle.h"
@@ -26,8 +28,11 @@ namespace bitcask
 
         /**
          * @brief Get FD for file_id, opening if not cached
+         *
+         * The descriptor stays open as long as the returned handle is held, even if the
+         * cache evicts or removes it in the meantime.
          */
-        kio::Task<kio::Result<int>> get_or_open(uint64_t file_id, const std::filesystem::path& path);
+        kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> get_or_open(uint64_t file_id, const std::filesystem::path& path);
         /**
          * @brief Remove file from cache (e.g., after compaction)
          */
@@ -39,6 +44,7 @@ namespace bitcask
         {
             cache_.clear();
             lru_list_.clear();
+            removals_++;
         }
         // Stats
         struct Stats
@@ -56,7 +62,7 @@ namespace bitcask
     private:
         struct CacheEntry
         {
-            FileHandle handle;
+            std::shared_ptr<const FileHandle> handle;
             std::filesystem::path path;
             std::list<uint64_t>::iterator lru_iter;
         };
@@ -65,6 +71,8 @@ namespace bitcask
         size_t max_open_files_;
         std::unordered_map<uint64_t, CacheEntry> cache_;
         std::list<uint64_t> lru_list_;
+        // Counts remove() and clear() calls: a file opened meanwhile may be one of those removed
+        uint64_t removals_ = 0;
         Stats stats_;
 
         void touch(uint64_t file_id);
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 902f068..6f72dfd 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -44,7 +44,8 @@ namespace bitcask
         // Helper methods
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
         kio::Task<kio::Result<void>> rotate_active_file();
-        kio::Task<kio::Result<int>> find_fd(uint64_t file_id);
+        kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> find_fd(uint64_t file_id);
+        kio::Task<kio::Result<DataEntry>> read_location(ValueLocation loc);
 
         // Start the loop in the background if a compaction flag is set
         kio::DetachedTask compaction_loop();
diff --git a/bitcask/src/fd_cache.cpp b/bitcask/src/fd_cache.cpp
index 2040b43..46a3711 100644
--- a/bitcask/src/fd_cache.cpp
+++ b/bitcask/src/fd_cache.cpp
@@ -6,39 +6,54 @@
 
 namespace bitcask
 {
-    kio::Task<kio::Result<int>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
+    kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
     {
         // Cache hit
         if (const auto it = cache_.find(file_id); it != cache_.end())
         {
             stats_.hits++;
             touch(file_id);
-            co_return it->second.handle.get();
+            co_return it->second.handle;
         }
 
         // Cache miss
         stats_.misses++;
 
+        // Open file
+        const uint64_t removals = removals_;
+        const int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
+        auto handle = std::make_shared<const FileHandle>(fd);
+
+        // Another coroutine may have opened it while we were waiting
+        if (const auto it = cache_.find(file_id); it != cache_.end())
+        {
+            co_return it->second.handle;
+        }
+
+        // Not to be kept: caching is disabled, or the file may have been removed while we were waiting
+        if (max_open_files_ == 0 || removals != removals_)
+        {
+            co_return handle;
+        }
+
         // Evict if at capacity
-        if (cache_.size() >= max_open_files_)
+        while (cache_.size() >= max_open_files_)
         {
             evict_oldest();
         }
 
-        // Open file
-        int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
-
         // Add to cache
         lru_list_.push_front(file_id);
-        cache_[file_id] = CacheEntry{FileHandle(fd), path, lru_list_.begin()};
+        cache_[file_id] = CacheEntry{handle, path, lru_list_.begin()};
 
         ALOG_DEBUG("FdCache: Opened file {} (cache size: {})", file_id, cache_.size());
 
-        co_return fd;
+        co_return handle;
     }
 
     void FDCache::remove(uint64_t file_id)
     {
+        removals_++;
         if (const auto it = cache_.find(file_id); it != cache_.end())
         {
             lru_list_.erase(it->second.lru_iter);
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index cc81506..c17159b 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -62,26 +62,51 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
     co_await SwitchToWorker(worker_);
     stats_.gets_total++;
 
-    const auto it = keydir_.find(key);
-    if (it == keydir_.end())
+    for (;;)
     {
-        stats_.gets_miss_total++;
-        co_return std::nullopt;
-    }
+        const auto it = keydir_.find(key);
+        if (it == keydir_.end())
+        {
+            stats_.gets_miss_total++;
+            co_return std::nullopt;
+        }
 
-    const auto& loc = it->second;
-    const int fd = KIO_TRY(co_await find_fd(loc.file_id));
+        // Copy: the entry may be moved, replaced or erased while we are reading
+        const ValueLocation loc = it->second;
+        auto entry = co_await read_location(loc);
 
-    ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-    DataEntry entry = KIO_TRY(co_await async_read_entry(fd, loc.offset, loc.total_size));
+        if (entry.has_value() && entry->key == key)
+        {
+            if (entry->is_tombstone())
+            {
+                stats_.gets_miss_total++;
+                co_return std::nullopt;
+            }
+            co_return std::move(entry->value);
+        }
 
-    if (entry.is_tombstone())
-    {
-        stats_.gets_miss_total++;
-        co_return std::nullopt;
+        // The file may be gone because the entry now lives elsewhere (or nowhere): look again
+        if (const auto now = keydir_.find(key); now == keydir_.end() || now->second.file_id != loc.file_id || now->second.offset != loc.offset)
+        {
+            continue;
+        }
+
+        if (!entry.has_value())
+        {
+            co_return std::unexpected(entry.error());
+        }
+        ALOG_ERROR("File {} holds another key at offset {}", loc.file_id, loc.offset);
+        co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDataCorrupted});
     }
+}
 
-    co_return entry.value;
+Task<Result<DataEntry>> Partition::read_location(const ValueLocation loc)
+{
+    // Held until the entry is read: the cache may evict the file while we are waiting
+    const auto handle = KIO_TRY(co_await find_fd(loc.file_id));
+
+    ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
+    co_return co_await async_read_entry(handle->get(), loc.offset, loc.total_size);
 }
 
 
@@ -128,7 +153,7 @@ Task<Result<void>> Partition::del(const std::string& key)
 }
 
 
-Task<Result<int>> Partition::find_fd(const uint64_t file_id)
+Task<Result<std::shared_ptr<const FileHandle>>> Partition::find_fd(const uint64_t file_id)
 {
     // if file id is the active one, flush first
     if (file_id == active_file_->file_id())
-- 
2.43.0


From a73b493ccd8380546dc1f809ed40bbd8e60d1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 39/54] fix: concurrent puts and deletes must not write over
 each other or be lost

---
 bitcask/include/async_lock.h | 79 +++++++++++++++++++++++++++++++++
 bitcask/include/partition.h  |  6 ++-
 bitcask/src/partition.cpp    | 86 ++++++++++++++++++++++--------------
 3 files changed, 136 insertions(+), 35 deletions(-)
 create mode 100644 bitcask/include/async_lock.h

diff --git a/bitcask/include/async_lock.h b/bitcask/include/async_lock.h
new file mode 100644
index 0000000..926c1df
--- /dev/null
+++ b/bitcask/include/async_lock.h
@@ -0,0 +1,79 @@
+#ifndef KIO_BITCASK_ASYNC_LOCK_H
+#define KIO_BITCASK_ASYNC_LOCK_H
+
+#include <coroutine>
+#include <deque>
+#include <utility>
+
+namespace bitcask
+{
+    /**
+     * @brief FIFO lock for the coroutines of one worker.
+     *
+     * NOT thread-safe: a partition runs on a single worker (share-nothing), this only keeps
+     * its coroutines apart while one of them is suspended in the middle of an update.
+     */
+    class AsyncLock
+    {
+    public:
+        class Guard
+        {
+        public:
+            explicit Guard(AsyncLock* lock) : lock_(lock) {}
+            ~Guard() { release(); }
+
+            Guard(const Guard&) = delete;
+            Guard& operator=(const Guard&) = delete;
+            Guard(Guard&& other) noexcept : lock_(std::exchange(other.lock_, nullptr)) {}
+            Guard& operator=(Guard&&) = delete;
+
+            void release()
+            {
+                if (auto* lock = std::exchange(lock_, nullptr)) lock->unlock();
+            }
+
+        private:
+            AsyncLock* lock_;
+        };
+
+        AsyncLock() = default;
+        AsyncLock(const AsyncLock&) = delete;
+        AsyncLock& operator=(const AsyncLock&) = delete;
+
+        /// co_await lock() gives a Guard that holds the lock
+        [[nodiscard]]
+        auto lock() noexcept
+        {
+            struct Awaiter
+            {
+                AsyncLock& lock_;
+
+                bool await_ready() const noexcept { return !std::exchange(lock_.locked_, true); }
+                void await_suspend(std::coroutine_handle<> h) const { lock_.waiters_.push_back(h); }
+                [[nodiscard]] Guard await_resume() const noexcept { return Guard{&lock_}; }
+            };
+
+            return Awaiter{*this};
+        }
+
+    private:
+        bool locked_ = false;
+        std::deque<std::coroutine_handle<>> waiters_;
+
+        void unlock()
+        {
+            if (waiters_.empty())
+            {
+                locked_ = false;
+                return;
+            }
+
+            // Handed over as it is. The waiter may destroy this lock: nothing may follow.
+            const auto next = waiters_.front();
+            waiters_.pop_front();
+            next.resume();
+        }
+    };
+}  // namespace bitcask
+
+#endif  // KIO_BITCASK_ASYNC_LOCK_H
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 6f72dfd..75eca65 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -6,6 +6,7 @@
 #define KIO_BITCASK_PARTITION_H
 
 #include "kio/sync/baton.h"
+#include "async_lock.h"
 #include "compactor.h"
 #include "data_file.h"
 #include "entry.h"
@@ -37,6 +38,9 @@ namespace bitcask
         size_t partition_id_;
         PartitionStats stats_{};
 
+        // Held while the active file or the KeyDir is being updated: updates take effect in the order they are written
+        AsyncLock write_lock_;
+
         kio::sync::AsyncBaton compaction_trigger_;
         compactor::CompactionLimits compaction_limits_{};
         std::atomic<bool> shutting_down_{false};
@@ -79,7 +83,7 @@ namespace bitcask
         // recover the partition and runtime stats
         kio::Task<kio::Result<void>> recover();
         kio::Task<bool> try_recover_from_hint(uint64_t file_id);
-        kio::Task<kio::Result<void>> create_and_set_active_file();
+        kio::Task<kio::Result<std::unique_ptr<DataFile>>> create_active_file();
         /**
          * Seal the active file, truncate it to the actual db size.
          * This method invalidates the active file.
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index c17159b..eec3c37 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -10,12 +10,18 @@ Partition::Partition(const BitcaskConfig& config, Worker& worker, const size_t p
     //  Recovery, compaction loop delegated to open factory method
 }
 
-Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
+namespace
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
+    // Operations on a closed partition
+    Error closed_error() { return Error::from_errno(ESHUTDOWN); }
+}  // namespace
 
+Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
+{
     co_await SwitchToWorker(worker_);
+    const auto guard = co_await write_lock_.lock();
+
+    if (!active_file_) co_return std::unexpected(closed_error());
 
     if (active_file_->should_rotate(config_.max_file_size))
     {
@@ -56,10 +62,10 @@ Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
 
 Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string& key)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
     co_await SwitchToWorker(worker_);
+
+    if (!active_file_) co_return std::unexpected(closed_error());
+
     stats_.gets_total++;
 
     for (;;)
@@ -112,30 +118,19 @@ Task<Result<DataEntry>> Partition::read_location(const ValueLocation loc)
 
 Task<Result<void>> Partition::del(const std::string& key)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
     co_await SwitchToWorker(worker_);
+    const auto guard = co_await write_lock_.lock();
+
+    if (!active_file_) co_return std::unexpected(closed_error());
 
     stats_.deletes_total++;
 
-    const auto it = keydir_.find(key);
-    if (it == keydir_.end())
+    if (!keydir_.contains(key))
     {
         co_return {};
     }
 
-    // Update stats for old location
-    auto& old_stats = stats_.data_files[it->second.file_id];
-    old_stats.live_bytes -= it->second.total_size;
-    old_stats.live_entries--;
-
-    const uint64_t old_file_id = it->second.file_id;
-
-    // Remove from KeyDir first as it's our source of truth
-    keydir_.erase(it);
-
-    // Write tombstone
+    // Write tombstone first: if that fails, the key keeps its value
     const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
     auto [_, size] = KIO_TRY(co_await active_file_->async_write(tombstone));
 
@@ -143,6 +138,17 @@ Task<Result<void>> Partition::del(const std::string& key)
     auto& active_stats = stats_.data_files[active_file_->file_id()];
     active_stats.total_bytes += size;
 
+    // The lock keeps the key in place, but compaction may have moved it while we were writing
+    const auto it = keydir_.find(key);
+    const uint64_t old_file_id = it->second.file_id;
+
+    // Update stats for old location
+    auto& old_stats = stats_.data_files[old_file_id];
+    old_stats.live_bytes -= it->second.total_size;
+    old_stats.live_entries--;
+
+    keydir_.erase(it);
+
     // Check if a file needs compaction
     if (should_compact_file(old_file_id))
     {
@@ -156,7 +162,7 @@ Task<Result<void>> Partition::del(const std::string& key)
 Task<Result<std::shared_ptr<const FileHandle>>> Partition::find_fd(const uint64_t file_id)
 {
     // if file id is the active one, flush first
-    if (file_id == active_file_->file_id())
+    if (active_file_ && file_id == active_file_->file_id())
     {
         KIO_TRY(co_await worker_.async_fdatasync(active_file_->handle().get()));
     }
@@ -191,31 +197,38 @@ Task<Result<void>> Partition::rotate_active_file()
     // truncate to the actual used space
     KIO_TRY(co_await worker_.async_ftruncate(active_fd, static_cast<off_t>(actual_size)));
 
-    // close
-    KIO_TRY(co_await active_file_->async_close());
-
-    // No need to add to FD cache as it will be done when needed
-
-    // Create a new active file
-    KIO_TRY(co_await create_and_set_active_file());
+    // Create a new active file. Until it is there, the old one remains in use.
+    auto next = co_await create_active_file();
+    if (!next.has_value())
+    {
+        co_return std::unexpected(next.error());
+    }
+    const auto sealed = std::exchange(active_file_, std::move(next.value()));
 
     stats_.file_rotations_total++;
 
+    // close: the content is on disk already
+    // No need to add to FD cache as it will be done when needed
+    if (auto res = co_await sealed->async_close(); !res.has_value())
+    {
+        ALOG_WARN("Failed to close data file {}: {}", sealed->file_id(), res.error());
+    }
+
     co_return {};
 }
 
-Task<Result<void>> Partition::create_and_set_active_file()
+Task<Result<std::unique_ptr<DataFile>>> Partition::create_active_file()
 {
     uint64_t new_id = file_id_gen_.next();
     int new_fd = KIO_TRY(co_await worker_.async_openat(get_data_file_path(new_id), config_.write_flags, config_.file_mode));
 
-    active_file_ = std::make_unique<DataFile>(new_fd, new_id, worker_, config_);
+    auto file = std::make_unique<DataFile>(new_fd, new_id, worker_, config_);
 
     // Pre-allocate
     // TODO: remove to fix test for now
     co_await worker_.async_fallocate(new_fd, 0, static_cast<off_t>(config_.max_file_size));
 
-    co_return {};
+    co_return std::move(file);
 }
 
 bool Partition::should_compact_file(const uint64_t file_id) const
@@ -538,7 +551,12 @@ Task<Result<void>> Partition::recover()
     }
 
     // create and set an active file
-    KIO_TRY(co_await create_and_set_active_file());
+    auto active = co_await create_active_file();
+    if (!active.has_value())
+    {
+        co_return std::unexpected(active.error());
+    }
+    active_file_ = std::move(active.value());
 
     co_return {};
 }
-- 
2.43.0


From d3dabee1c1ceaad37bd1502a7edc95f316a08cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 40/54] fix: compaction must not lose, revert or resurrect
 entries

---
 bitcask/include/compactor.h |  11 ++-
 bitcask/include/hint_file.h |  13 +++
 bitcask/include/partition.h |   3 +
 bitcask/src/compactor.cpp   | 176 +++++++++++++++++++++++++-----------
 bitcask/src/hint_file.cpp   |  30 ++++++
 bitcask/src/partition.cpp   |  95 +++++++++++++------
 6 files changed, 246 insertions(+), 82 deletions(-)

diff --git a/bitcask/include/compactor.h b/bitcask/include/compactor.h
index a883da1..487ef09 100644
--- a/bitcask/include/compactor.h
+++ b/bitcask/include/compactor.h
@@ -49,6 +49,7 @@ namespace bitcask::compactor
 
         uint64_t current_data_offset = 0;
         uint64_t current_hint_offset = 0;
+        uint32_t hint_crc = 0;
 
         // Compaction metrics
         uint64_t entries_kept = 0;
@@ -74,11 +75,14 @@ namespace bitcask::compactor
     // Implementation helpers
     namespace detail
     {
+        // copies everything into the open destination file and completes the hint file
+        kio::Task<kio::Result<void>> compact_into(CompactionContext& ctx, int data_fd, const std::filesystem::path& hint_path);
+
         kio::Task<kio::Result<std::pair<int, uint64_t>>> open_source_file(const CompactionContext& ctx, uint64_t src_file_id);
 
-        kio::Task<kio::Result<void>> stream_and_compact_file(CompactionContext& ctx, int src_fd, int dst_data_fd, int dst_hint_fd, uint64_t src_file_id);
+        kio::Task<kio::Result<void>> stream_and_compact_file(CompactionContext& ctx, int src_fd, uint64_t file_size, int dst_data_fd, int dst_hint_fd, uint64_t src_file_id);
 
-        kio::Task<kio::Result<void>> parse_entries_from_buffer(CompactionContext& ctx, uint64_t file_read_pos, uint64_t src_file_id, int dst_data_fd, int dst_hint_fd);
+        kio::Task<kio::Result<bool>> parse_entries_from_buffer(CompactionContext& ctx, uint64_t file_read_pos, uint64_t src_file_id, int dst_data_fd, int dst_hint_fd);
 
         void process_parsed_entry(CompactionContext& ctx, const DataEntry& data_entry, uint64_t decoded_size, uint64_t entry_offset, uint64_t src_file_id, std::span<const char> readable_data);
 
@@ -89,6 +93,9 @@ namespace bitcask::compactor
 
         kio::Task<kio::Result<void>> cleanup_source_files(const CompactionContext& ctx, uint64_t src_file_id);
 
+        // a deletion that still has to hide a value in an older file
+        bool is_needed_tombstone(const CompactionContext& ctx, const DataEntry& entry, uint64_t src_file_id);
+
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, uint64_t old_offset, uint64_t old_file_id);
 
         bool update_keydir_if_matches(const CompactionContext& ctx, const std::string& key, const ValueLocation& new_loc, uint64_t expected_file_id, uint64_t expected_offset);
diff --git a/bitcask/include/hint_file.h b/bitcask/include/hint_file.h
index dc3778c..1de5e8e 100644
--- a/bitcask/include/hint_file.h
+++ b/bitcask/include/hint_file.h
@@ -5,6 +5,10 @@
 #ifndef KIO_HINT_FILE_H
 #define KIO_HINT_FILE_H
 
+#include <optional>
+#include <span>
+#include <vector>
+
 #include "kio/core/worker.h"
 #include "config.h"
 #include "entry.h"
@@ -13,6 +17,15 @@
 
 namespace bitcask
 {
+    // The hints of a compacted data file end with a footer: magic, CRC32C of all the hints.
+    // A hint file without it was never completed and must not be used.
+    constexpr uint32_t kHintFooterMagic = 0x46544E48;  // 'HNTF'
+    constexpr size_t kHintFooterSize = 2 * sizeof(uint32_t);
+
+    [[nodiscard]] std::vector<char> make_hint_footer(uint32_t crc);
+    // the hints without the footer, nothing if they are not complete and intact
+    [[nodiscard]] std::optional<std::span<const char>> check_hint_footer(std::span<const char> content);
+
     class HintFile
     {
         // timestamp-based id
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 75eca65..c404a49 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -40,6 +40,8 @@ namespace bitcask
 
         // Held while the active file or the KeyDir is being updated: updates take effect in the order they are written
         AsyncLock write_lock_;
+        // Held while files are being merged. Taken before write_lock_.
+        AsyncLock compaction_lock_;
 
         kio::sync::AsyncBaton compaction_trigger_;
         compactor::CompactionLimits compaction_limits_{};
@@ -55,6 +57,7 @@ namespace bitcask
         kio::DetachedTask compaction_loop();
         // background sync job for the active file, in case sync_on_write is not set
         kio::DetachedTask background_sync();
+        kio::Task<kio::Result<void>> compact_files(std::vector<uint64_t> src_file_ids);
         void signal_compaction(uint64_t file_id);
         bool should_compact_file(uint64_t file_id) const;
         std::vector<uint64_t> find_fragmented_files() const;
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 9b57872..c34405c 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -5,10 +5,14 @@
 
 #include "bitcask/include/compactor.h"
 
+#include <algorithm>
 #include <format>
+#include <ranges>
 #include <ylt/struct_pack.hpp>
 
 #include "bitcask/include/file_handle.h"
+#include "bitcask/include/hint_file.h"
+#include "crc32c/crc32c.h"
 
 using namespace kio;
 using namespace kio::io;
@@ -19,39 +23,41 @@ namespace bitcask::compactor
     {
         ALOG_INFO("Starting N-to-1 compaction: {} files -> file {}", ctx.src_file_ids.size(), ctx.dst_file_id);
 
-        // Initialize destination file stats
-        ctx.stats.data_files[ctx.dst_file_id] = PartitionStats::FileStats{};
+        // Oldest first: whether a tombstone is still needed depends on the older files left
+        std::ranges::sort(ctx.src_file_ids);
 
         // Create destination files
         const auto data_path = detail::get_data_file_path(ctx, ctx.dst_file_id);
         const auto hint_path = detail::get_hint_file_path(ctx, ctx.dst_file_id);
 
         const int data_fd = KIO_TRY(co_await ctx.io_worker.async_openat(data_path, ctx.config.write_flags, ctx.config.file_mode));
-        const int hint_fd = KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode));
-
         FileHandle data_handle(data_fd);
-        FileHandle hint_handle(hint_fd);
 
-        // Pre-allocate
-        KIO_TRY(co_await ctx.io_worker.async_fallocate(data_fd, 0, static_cast<off_t>(ctx.config.max_file_size)));
+        // Initialize destination file stats
+        ctx.stats.data_files[ctx.dst_file_id] = PartitionStats::FileStats{};
+
+        auto result = co_await detail::compact_into(ctx, data_fd, hint_path);
+
+        // Drop what was pre-allocated or written beyond the last committed batch
+        if (auto res = co_await ctx.io_worker.async_ftruncate(data_fd, static_cast<off_t>(ctx.current_data_offset)); !res.has_value())
+        {
+            ALOG_WARN("Failed to truncate compacted file {}: {}", ctx.dst_file_id, res.error());
+        }
 
-        // Compact each source file
-        for (uint64_t src_file_id: ctx.src_file_ids)
+        // Nothing was kept: no need for the file
+        if (ctx.current_data_offset == 0)
         {
-            // log error regarding one file failing
-            if (auto result = co_await compact_one_file(ctx, src_file_id, data_fd, hint_fd); !result.has_value())
+            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, hint_path, 0);
+            if (auto res = co_await ctx.io_worker.async_unlink_at(AT_FDCWD, data_path, 0); res.has_value())
             {
-                ALOG_ERROR("Failed to compact file {}: {}", src_file_id, result.error());
-                co_return std::unexpected(result.error());
+                ctx.stats.data_files.erase(ctx.dst_file_id);
             }
         }
 
-        // Final flush
-        KIO_TRY(co_await detail::commit_batch(ctx, data_fd, hint_fd));
-
-        // Sync
-        KIO_TRY(co_await ctx.io_worker.async_fsync(data_fd));
-        KIO_TRY(co_await ctx.io_worker.async_fsync(hint_fd));
+        if (!result.has_value())
+        {
+            co_return result;
+        }
 
         double reduction = ctx.bytes_read > 0 ? 100.0 * (1.0 - static_cast<double>(ctx.bytes_written) / static_cast<double>(ctx.bytes_read)) : 0.0;
 
@@ -71,43 +77,82 @@ namespace bitcask::compactor
         FileHandle src_handle(src_fd);
         ctx.bytes_read += file_size;
 
-        KIO_TRY(co_await detail::stream_and_compact_file(ctx, src_fd, dst_data_fd, dst_hint_fd, src_file_id));
+        const uint64_t written_before = ctx.bytes_written;
+
+        KIO_TRY(co_await detail::stream_and_compact_file(ctx, src_fd, file_size, dst_data_fd, dst_hint_fd, src_file_id));
 
         KIO_TRY(co_await detail::commit_batch(ctx, dst_data_fd, dst_hint_fd));
 
+        // Entries behind a damaged one cannot be moved: the file has to stay
+        if (ctx.stats.data_files[src_file_id].live_entries > 0)
+        {
+            ALOG_ERROR("File {} has live entries that could not be compacted, keeping it", src_file_id);
+            co_return {};
+        }
+
+        // The copies must be on disk before the originals go
+        KIO_TRY(co_await ctx.io_worker.async_fsync(dst_data_fd));
+        KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
+
         // Update stats: a source file is gone
         if (const auto it = ctx.stats.data_files.find(src_file_id); it != ctx.stats.data_files.end())
         {
-            ctx.stats.bytes_reclaimed_total += it->second.total_bytes - it->second.live_bytes;
+            const uint64_t copied = ctx.bytes_written - written_before;
+            ctx.stats.bytes_reclaimed_total += it->second.total_bytes - std::min(it->second.total_bytes, copied);
             ctx.stats.data_files.erase(it);
         }
 
         ctx.stats.files_compacted_total++;
 
-        KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
-
         co_return {};
     }
 
     namespace detail
     {
+        Task<Result<void>> compact_into(CompactionContext& ctx, const int data_fd, const std::filesystem::path& hint_path)
+        {
+            const int hint_fd = KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode));
+            FileHandle hint_handle(hint_fd);
+
+            // Pre-allocate, as an optimisation: not every file system can
+            co_await ctx.io_worker.async_fallocate(data_fd, 0, static_cast<off_t>(ctx.config.max_file_size));
+
+            // Compact each source file
+            for (const uint64_t src_file_id: ctx.src_file_ids)
+            {
+                // log error regarding one file failing
+                if (auto result = co_await compact_one_file(ctx, src_file_id, data_fd, hint_fd); !result.has_value())
+                {
+                    ALOG_ERROR("Failed to compact file {}: {}", src_file_id, result.error());
+                    co_return std::unexpected(result.error());
+                }
+            }
+
+            // The hints are only used once they are complete
+            const auto footer = make_hint_footer(ctx.hint_crc);
+            KIO_TRY(co_await ctx.io_worker.async_write_exact_at(hint_fd, std::span<const char>(footer), ctx.current_hint_offset));
+            KIO_TRY(co_await ctx.io_worker.async_fsync(hint_fd));
+
+            co_return {};
+        }
+
         Task<Result<std::pair<int, uint64_t>>> open_source_file(const CompactionContext& ctx, const uint64_t src_file_id)
         {
             const auto src_path = get_data_file_path(ctx, src_file_id);
             const auto src_fd = KIO_TRY(co_await ctx.io_worker.async_openat(src_path, ctx.config.read_flags, ctx.config.file_mode));
 
-            struct stat st{};
-            uint64_t file_size = 0;
-            if (::fstat(src_fd, &st) == 0)
+            const auto file_size = get_file_size(src_fd);
+            if (!file_size.has_value())
             {
-                file_size = st.st_size;
+                ::close(src_fd);
+                co_return std::unexpected(file_size.error());
             }
 
-            co_return std::pair{src_fd, file_size};
+            co_return std::pair{src_fd, file_size.value()};
         }
 
 
-        Task<Result<void>> stream_and_compact_file(CompactionContext& ctx, const int src_fd, const int dst_data_fd, const int dst_hint_fd, uint64_t src_file_id)
+        Task<Result<void>> stream_and_compact_file(CompactionContext& ctx, const int src_fd, const uint64_t file_size, const int dst_data_fd, const int dst_hint_fd, uint64_t src_file_id)
         {
             uint64_t file_read_pos = 0;
 
@@ -134,24 +179,30 @@ namespace bitcask::compactor
 
                 file_read_pos += bytes_read;
 
-                if (ctx.decode_buffer.remaining() > ctx.limits.max_decode_buffer)
-                {
-                    ALOG_ERROR("Buffer overflow: {}MB", ctx.decode_buffer.remaining() / 1024 / 1024);
-                    co_return std::unexpected(Error{ErrorCategory::Application, kIoDataCorrupted});
-                }
-
                 // FIX: Check the result of parsing. If it fails, assume we hit the unsealed tail.
-                auto parse_result = co_await parse_entries_from_buffer(ctx, file_read_pos, src_file_id, dst_data_fd, dst_hint_fd);
+                const bool intact = KIO_TRY(co_await parse_entries_from_buffer(ctx, file_read_pos, src_file_id, dst_data_fd, dst_hint_fd));
 
-                if (!parse_result.has_value())
+                if (!intact)
                 {
                     // Logic: If we encounter a deserialization error, it likely means we hit the zero-filled
                     // or garbage tail of an unsealed file. We stop processing this file but DO NOT return an error.
                     // This allows the compaction to proceed with the valid entries we've found so far.
-                    ALOG_WARN("Compaction of file {} stopped early due to data end/corruption: {}", src_file_id, parse_result.error());
+                    ALOG_WARN("Compaction of file {} stopped early due to data end/corruption", src_file_id);
                     break;
                 }
 
+                // A large entry needs a large buffer, but one that ends behind the file will never be complete
+                if (ctx.decode_buffer.remaining() > ctx.limits.max_decode_buffer)
+                {
+                    const auto entry_size = read_le<uint64_t>(ctx.decode_buffer.readable_span().data() + sizeof(uint32_t));
+                    const uint64_t entry_offset = file_read_pos - ctx.decode_buffer.remaining();
+                    if (entry_size > file_size - std::min(file_size, entry_offset))
+                    {
+                        ALOG_WARN("Compaction of file {} stopped early: the entry at offset {} ends behind the file", src_file_id, entry_offset);
+                        break;
+                    }
+                }
+
                 if (ctx.decode_buffer.should_compact())
                 {
                     ctx.decode_buffer.compact();
@@ -161,7 +212,7 @@ namespace bitcask::compactor
             co_return {};
         }
 
-        Task<Result<void>> parse_entries_from_buffer(CompactionContext& ctx, const uint64_t file_read_pos, const uint64_t src_file_id, const int dst_data_fd, const int dst_hint_fd)
+        Task<Result<bool>> parse_entries_from_buffer(CompactionContext& ctx, const uint64_t file_read_pos, const uint64_t src_file_id, const int dst_data_fd, const int dst_hint_fd)
         {
             while (true)
             {
@@ -170,8 +221,7 @@ namespace bitcask::compactor
 
                 if (!entry_result.has_value())
                 {
-                    if (entry_result.error().value == kIoNeedMoreData) break;
-                    co_return std::unexpected(entry_result.error());
+                    co_return entry_result.error().value == kIoNeedMoreData;
                 }
 
                 const auto& [data_entry, decoded_size] = entry_result.value();
@@ -188,13 +238,12 @@ namespace bitcask::compactor
                     KIO_TRY(co_await commit_batch(ctx, dst_data_fd, dst_hint_fd));
                 }
             }
-
-            co_return {};
         }
 
         void process_parsed_entry(CompactionContext& ctx, const DataEntry& data_entry, const uint64_t decoded_size, uint64_t entry_offset, uint64_t src_file_id, std::span<const char> readable_data)
         {
-            if (!is_live_entry(ctx, data_entry, entry_offset, src_file_id))
+            const bool live = is_live_entry(ctx, data_entry, entry_offset, src_file_id);
+            if (!live && !is_needed_tombstone(ctx, data_entry, src_file_id))
             {
                 ctx.entries_discarded++;
                 return;
@@ -206,39 +255,48 @@ namespace bitcask::compactor
 
             ValueLocation new_loc{ctx.dst_file_id, ctx.current_data_offset + ctx.data_batch.size(), static_cast<uint32_t>(decoded_size), data_entry.timestamp_ns};
 
-            const HintEntry hint{new_loc.timestamp_ns, new_loc.offset, new_loc.total_size, std::string(data_entry.key)};
+            // The hint of a tombstone has no size
+            const HintEntry hint{new_loc.timestamp_ns, new_loc.offset, live ? new_loc.total_size : 0, std::string(data_entry.key)};
 
             ctx.data_batch.insert(ctx.data_batch.end(), raw_entry.begin(), raw_entry.end());
             struct_pack::serialize_to(ctx.hint_batch, hint);
-            ctx.keydir_batch.emplace_back(std::string(data_entry.key), new_loc, src_file_id, entry_offset);
+            if (live)
+            {
+                ctx.keydir_batch.emplace_back(std::string(data_entry.key), new_loc, src_file_id, entry_offset);
+            }
         }
 
         Task<Result<void>> commit_batch(CompactionContext& ctx, const int dst_data_fd, const int dst_hint_fd)
         {
             if (ctx.data_batch.empty()) co_return {};
 
-            KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_data_fd, std::span(ctx.data_batch)));
-            KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_hint_fd, std::span(ctx.hint_batch)));
+            KIO_TRY(co_await ctx.io_worker.async_write_exact_at(dst_data_fd, std::span<const char>(ctx.data_batch), ctx.current_data_offset));
+            KIO_TRY(co_await ctx.io_worker.async_write_exact_at(dst_hint_fd, std::span<const char>(ctx.hint_batch), ctx.current_hint_offset));
 
             ctx.bytes_written += ctx.data_batch.size();
 
             auto& dst_stats = ctx.stats.data_files[ctx.dst_file_id];
             dst_stats.total_bytes += ctx.data_batch.size();
-            dst_stats.live_bytes += ctx.data_batch.size();
-            dst_stats.live_entries += ctx.keydir_batch.size();
 
-            // Update KeyDir with CAS, adjust stats if CAS fails
+            // Update KeyDir with CAS: what changed meanwhile is dead already
             for (const auto& update: ctx.keydir_batch)
             {
                 if (!update_keydir_if_matches(ctx, update.key, update.new_loc, update.expected_file_id, update.expected_offset))
                 {
-                    dst_stats.live_bytes -= update.new_loc.total_size;
-                    dst_stats.live_entries--;
+                    continue;
                 }
+
+                dst_stats.live_bytes += update.new_loc.total_size;
+                dst_stats.live_entries++;
+
+                auto& src_stats = ctx.stats.data_files[update.expected_file_id];
+                src_stats.live_bytes -= update.new_loc.total_size;
+                src_stats.live_entries--;
             }
 
             ctx.current_data_offset += ctx.data_batch.size();
             ctx.current_hint_offset += ctx.hint_batch.size();
+            ctx.hint_crc = crc32c::Extend(ctx.hint_crc, reinterpret_cast<const uint8_t*>(ctx.hint_batch.data()), ctx.hint_batch.size());
 
             reset_batches(ctx);
             co_return {};
@@ -258,11 +316,21 @@ namespace bitcask::compactor
 
         Task<Result<void>> cleanup_source_files(const CompactionContext& ctx, const uint64_t src_file_id)
         {
-            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_data_file_path(ctx, src_file_id), 0);
+            KIO_TRY(co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_data_file_path(ctx, src_file_id), 0));
+            // Not every file has one
             co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_hint_file_path(ctx, src_file_id), 0);
             co_return {};
         }
 
+        bool is_needed_tombstone(const CompactionContext& ctx, const DataEntry& entry, const uint64_t src_file_id)
+        {
+            if (!entry.is_tombstone() || ctx.keydir.contains(entry.key)) return false;
+
+            // An older file may still hold a value that would come back at the next recovery.
+            // Sources are compacted oldest first, those still there are the ones that stay.
+            return std::ranges::any_of(ctx.stats.data_files | std::views::keys, [&](const uint64_t id) { return id < src_file_id; });
+        }
+
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, const uint64_t old_offset, const uint64_t old_file_id)
         {
             const auto it = ctx.keydir.find(entry.key);
diff --git a/bitcask/src/hint_file.cpp b/bitcask/src/hint_file.cpp
index 60fc124..9b9f0d7 100644
--- a/bitcask/src/hint_file.cpp
+++ b/bitcask/src/hint_file.cpp
@@ -3,11 +3,41 @@
 //
 
 #include "bitcask/include/hint_file.h"
+
+#include <bit>
+#include <cstring>
+
+#include "crc32c/crc32c.h"
+
 using namespace kio;
 using namespace kio::io;
 
 namespace bitcask
 {
+    std::vector<char> make_hint_footer(const uint32_t crc)
+    {
+        std::vector<char> footer(kHintFooterSize);
+        uint32_t fields[] = {kHintFooterMagic, crc};
+        for (auto& field: fields)
+        {
+            if constexpr (std::endian::native == std::endian::big) field = std::byteswap(field);
+        }
+        std::memcpy(footer.data(), fields, kHintFooterSize);
+        return footer;
+    }
+
+    std::optional<std::span<const char>> check_hint_footer(const std::span<const char> content)
+    {
+        if (content.size() < kHintFooterSize) return std::nullopt;
+
+        const auto hints = content.first(content.size() - kHintFooterSize);
+        const char* footer = content.data() + hints.size();
+        if (read_le<uint32_t>(footer) != kHintFooterMagic) return std::nullopt;
+        if (read_le<uint32_t>(footer + sizeof(uint32_t)) != crc32c::Crc32c(hints.data(), hints.size())) return std::nullopt;
+
+        return hints;
+    }
+
     HintFile::HintFile(const int fd, const uint64_t file_id, Worker& io_worker, BitcaskConfig& config) : file_id_(file_id), handle_(fd), io_worker_(io_worker), config_(config)
     {
         if (fd < 0)
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index eec3c37..13e073a 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -1,5 +1,7 @@
 #include "bitcask/include/partition.h"
 
+#include "bitcask/include/hint_file.h"
+
 using namespace bitcask;
 using namespace kio;
 using namespace kio::io;
@@ -214,6 +216,12 @@ Task<Result<void>> Partition::rotate_active_file()
         ALOG_WARN("Failed to close data file {}: {}", sealed->file_id(), res.error());
     }
 
+    // Never used
+    if (actual_size == 0)
+    {
+        co_await worker_.async_unlink_at(AT_FDCWD, get_data_file_path(sealed->file_id()), 0);
+    }
+
     co_return {};
 }
 
@@ -293,6 +301,9 @@ DetachedTask Partition::compaction_loop()
             break;
         }
 
+        // Reset trigger: what is signalled from now on is for the next round
+        compaction_trigger_.reset();
+
         // compact all fragmented files
         if (auto res = co_await compact(); !res.has_value())
         {
@@ -300,9 +311,6 @@ DetachedTask Partition::compaction_loop()
         }
         // The new compacted file will be added to cache on first read
 
-        // Reset trigger
-        compaction_trigger_.reset();
-        stats_.compaction_running = false;
     }
 
     ALOG_INFO("Partition {} compaction loop exiting", partition_id_);
@@ -367,27 +375,39 @@ Task<Result<void>> Partition::recover_from_hint_file(const FileHandle& fh, const
 
     // hint files are small, read entirely
     const auto buf = KIO_TRY(co_await read_file_content(worker_, fd));
-    if (buf.empty())
+    const auto hints = check_hint_footer(buf);
+    if (!hints.has_value())
     {
-        co_return {};
+        ALOG_WARN("Hint file {} is incomplete or damaged", file_id);
+        co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDataCorrupted});
     }
 
-    std::span buf_span(buf);
+    auto buf_span = hints.value();
 
+    // Read all of it before using any of it
+    std::vector<HintEntry> entries;
     while (!buf_span.empty())
     {
-        const auto res = struct_pack::deserialize<HintEntry>(buf_span);
+        auto res = struct_pack::deserialize<HintEntry>(buf_span);
         if (!res.has_value())
         {
             ALOG_ERROR("Failed to deserialize entry: {}", res.error().message());
             co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDeserialization});
         }
 
-        const auto& entry = res.value();
-        const size_t bytes_this_entry = struct_pack::get_needed_size(entry);
+        buf_span = buf_span.subspan(struct_pack::get_needed_size(res.value()));
+        entries.push_back(std::move(res.value()));
+    }
 
-        keydir_[std::string(entry.key)] = ValueLocation{file_id, entry.entry_pos, entry.total_sz, entry.timestamp_ns};
-        buf_span = buf_span.subspan(bytes_this_entry);
+    for (const auto& entry: entries)
+    {
+        if (entry.total_sz == 0)
+        {
+            // tombstone
+            keydir_.erase(entry.key);
+            continue;
+        }
+        keydir_[entry.key] = ValueLocation{file_id, entry.entry_pos, entry.total_sz, entry.timestamp_ns};
     }
 
     co_return {};
@@ -665,43 +685,66 @@ Task<Result<void>> Partition::async_close()
 
 Task<Result<void>> Partition::compact()
 {
+    co_await SwitchToWorker(worker_);
+
+    // One at a time: the files being merged are not there for anyone else
+    const auto compaction = co_await compaction_lock_.lock();
+
+    if (!active_file_) co_return std::unexpected(closed_error());
+
     auto fragmented_files = find_fragmented_files();
 
     if (fragmented_files.empty())
     {
         ALOG_DEBUG("Partition {}: no files to compact", partition_id_);
-        compaction_trigger_.reset();
         co_return {};
     }
 
     ALOG_INFO("Partition {}: compacting {} files", partition_id_, fragmented_files.size());
 
     stats_.compaction_running = true;
+    const auto res = co_await compact_files(std::move(fragmented_files));
+    stats_.compaction_running = false;
 
-    // Generate destination file ID
-    const uint64_t dst_file_id = file_id_gen_.next();
-
-    // Create compaction context
-    compactor::CompactionContext ctx(worker_, config_, keydir_, stats_, partition_id_, dst_file_id, std::move(fragmented_files), compaction_limits_);
-
-    if (auto result = co_await compactor::compact_files(ctx); !result.has_value())
+    if (!res.has_value())
     {
-        ALOG_ERROR("Partition {}: compaction failed: {}", partition_id_, result.error());
+        ALOG_ERROR("Partition {}: compaction failed: {}", partition_id_, res.error());
         stats_.compactions_failed++;
     }
     else
     {
         ALOG_INFO("Partition {}: compaction succeeded", partition_id_);
         stats_.compactions_total++;
+    }
 
-        // Remove compacted files from FD cache
-        for (const uint64_t src_id: ctx.src_file_ids)
-        {
-            fd_cache_.remove(src_id);
-        }
+    co_return res;
+}
+
+Task<Result<void>> Partition::compact_files(std::vector<uint64_t> src_file_ids)
+{
+    uint64_t dst_file_id;
+    {
+        const auto guard = co_await write_lock_.lock();
+        if (!active_file_) co_return std::unexpected(closed_error());
+
+        // Generate destination file ID. Recovery reads the files in the order of their IDs: what is written
+        // from now on has to come after what is merged, so it goes to a new active file.
+        dst_file_id = file_id_gen_.next();
+        KIO_TRY(co_await rotate_active_file());
     }
 
-    co_return {};
+    // Create compaction context
+    compactor::CompactionContext ctx(worker_, config_, keydir_, stats_, partition_id_, dst_file_id, std::move(src_file_ids), compaction_limits_);
+
+    const auto result = co_await compactor::compact_files(ctx);
+
+    // Remove compacted files from FD cache
+    for (const uint64_t src_id: ctx.src_file_ids)
+    {
+        if (!stats_.data_files.contains(src_id)) fd_cache_.remove(src_id);
+    }
+
+    co_return result;
 }
 
 Task<Result<void>> Partition::sync()
-- 
2.43.0


From 305f11f12bed32769376efa6d7905d3886940fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 41/54] fix: a partition whose files cannot be read must not
 open with older values

---
 bitcask/src/partition.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 13e073a..2db7be8 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -553,11 +553,12 @@ Task<Result<void>> Partition::recover()
         // Fallback to a data file
         const auto fd = KIO_TRY(co_await worker_.async_openat(get_data_file_path(file_id), config_.read_flags, config_.file_mode));
         FileHandle data(fd);
+        // Damaged entries end the recovery of a file without an error. If the file could not be read, going on
+        // would silently revert its keys to older values.
         if (auto res = co_await recover_from_data_file(data, file_id); !res.has_value())
         {
-            // Do not exit on a single file failure, skip to the next
-            // TODO: add a flag for the user to decide what to do in such cases
-            ALOG_ERROR("Failed to recover from data file {}, skipping the rest of entries", file_id);
+            ALOG_ERROR("Failed to recover from data file {}: {}", file_id, res.error());
+            co_return std::unexpected(res.error());
         }
         ALOG_DEBUG("Recovered from data file {}", file_id);
     }
-- 
2.43.0


From 13391bb01f5fbb6a81a5bddaf2b80a89ae31cc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 42/54] fix: closing a partition must keep its data and wait
 for its background work

---
 bitcask/include/partition.h |  4 +++
 bitcask/src/partition.cpp   | 52 ++++++++++++++++++++++---------------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index c404a49..0df313a 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -44,6 +44,10 @@ namespace bitcask
         AsyncLock compaction_lock_;
 
         kio::sync::AsyncBaton compaction_trigger_;
+        kio::sync::AsyncBaton sync_trigger_;
+        // Held by the background loops as long as they run
+        AsyncLock compaction_loop_lock_;
+        AsyncLock background_sync_lock_;
         compactor::CompactionLimits compaction_limits_{};
         std::atomic<bool> shutting_down_{false};
 
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 2db7be8..e12c0cc 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -7,7 +7,7 @@ using namespace kio;
 using namespace kio::io;
 
 Partition::Partition(const BitcaskConfig& config, Worker& worker, const size_t partition_id) :
-    keydir_(&mem_pool_), worker_(worker), fd_cache_(worker, config.max_open_sealed_files), file_id_gen_(partition_id), config_(config), partition_id_(partition_id), compaction_trigger_(worker)
+    keydir_(&mem_pool_), worker_(worker), fd_cache_(worker, config.max_open_sealed_files), file_id_gen_(partition_id), config_(config), partition_id_(partition_id), compaction_trigger_(worker), sync_trigger_(worker)
 {
     //  Recovery, compaction loop delegated to open factory method
 }
@@ -279,6 +279,7 @@ std::filesystem::path Partition::get_hint_file_path(uint64_t file_id) const { re
 DetachedTask Partition::compaction_loop()
 {
     co_await SwitchToWorker(worker_);
+    const auto running = co_await compaction_loop_lock_.lock();
 
     ALOG_INFO("Partition {} compaction loop starting", partition_id_);
 
@@ -296,7 +297,7 @@ DetachedTask Partition::compaction_loop()
         }
 
         // Check shutdown again after waking up
-        if (shutting_down_.load())
+        if (st.stop_requested() || shutting_down_.load())
         {
             break;
         }
@@ -629,6 +630,9 @@ Task<Result<std::unique_ptr<Partition>>> Partition::open(const BitcaskConfig& co
 Task<Result<void>> Partition::seal_active_file()
 {
     co_await SwitchToWorker(worker_);
+    // Let the compaction and the updates that are under way finish
+    const auto compaction = co_await compaction_lock_.lock();
+    const auto guard = co_await write_lock_.lock();
 
     // Check if there is an active file to seal and if it has content
     if (active_file_ == nullptr)
@@ -638,28 +642,22 @@ Task<Result<void>> Partition::seal_active_file()
 
     const uint64_t actual_size = active_file_->size();
     const int active_fd = active_file_->handle().get();
-    uint64_t actual_file_id = active_file_id();
 
-    if (active_fd > 0)
-    {
-        KIO_TRY(co_await worker_.async_fsync(active_fd));
+    KIO_TRY(co_await worker_.async_fsync(active_fd));
+    KIO_TRY(co_await worker_.async_ftruncate(active_fd, static_cast<off_t>(actual_size)));
 
-        KIO_TRY(co_await worker_.async_ftruncate(active_fd, static_cast<off_t>(actual_size)));
+    // From here on there is nothing left to seal, whether closing succeeds or not
+    const auto sealed = std::exchange(active_file_, nullptr);
 
-        KIO_TRY(co_await active_file_->async_close());
-    }
-    else
+    KIO_TRY(co_await sealed->async_close());
+
+    if (actual_size == 0)
     {
-        // close and remove as this active file was never used
-        ALOG_DEBUG("The active file is empty, we will remove it, file_id {}", actual_file_id);
-        KIO_TRY(co_await active_file_->async_close());
-        const auto path = config_.directory / std::format("partition_{}/data_{}.db", partition_id_, actual_file_id);
-        KIO_TRY(co_await worker_.async_unlink_at(active_fd, path, config_.file_mode));
+        // remove as this active file was never used
+        ALOG_DEBUG("The active file is empty, we will remove it, file_id {}", sealed->file_id());
+        KIO_TRY(co_await worker_.async_unlink_at(AT_FDCWD, get_data_file_path(sealed->file_id()), 0));
     }
 
-    // Remove pointer to prevent double-closing in dtor
-    active_file_.reset();
-
     co_return {};
 }
 
@@ -667,16 +665,26 @@ Task<Result<void>> Partition::async_close()
 {
     ALOG_INFO("Partition {} closing...", partition_id_);
 
+    // The background loops and the partition's state belong to the worker
+    co_await SwitchToWorker(worker_);
+
     // Signal shutdown to compaction loop
     shutting_down_.store(true);
 
-    // Wake up the compaction loop so it can exit cleanly
+    // Wake up the loops so they can exit cleanly
 
     compaction_trigger_.notify();
+    sync_trigger_.notify();
 
     // Seal the active file if it exists and hasn't been sealed by rotation
     KIO_TRY(co_await seal_active_file());
 
+    // The partition may be destroyed as soon as we return: wait for the loops to exit
+    {
+        const auto compaction_stopped = co_await compaction_loop_lock_.lock();
+        const auto sync_stopped = co_await background_sync_lock_.lock();
+    }
+
     // The worker is not owned by the partition. It should not close it.
 
     ALOG_INFO("Partition {} closed successfully.", partition_id_);
@@ -761,14 +769,16 @@ Task<Result<void>> Partition::sync()
 DetachedTask Partition::background_sync()
 {
     co_await SwitchToWorker(worker_);
+    const auto running = co_await background_sync_lock_.lock();
     ALOG_INFO("Partition {} background sync loop starting", partition_id_);
 
     const auto st = worker_.get_stop_token();
     while (!st.stop_requested() && !shutting_down_.load())
     {
-        co_await worker_.async_sleep(std::chrono::milliseconds(config_.sync_interval));
+        // The trigger ends the wait when the partition closes
+        co_await sync_trigger_.wait_for(config_.sync_interval);
         // check again after wakeup
-        if (shutting_down_.load())
+        if (st.stop_requested() || shutting_down_.load())
         {
             break;
         }
-- 
2.43.0


From 8635e59b3f71c501f2d34470dd34d3a0fe1d9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 43/54] fix: opening a store must refuse invalid configurations
 and manifests and must not hang, closing must report failures

---
 bitcask/include/bitcask.h |  2 ++
 bitcask/src/bitcask.cpp   | 73 ++++++++++++++++++++++++++++++++++++---
 2 files changed, 70 insertions(+), 5 deletions(-)

diff --git a/bitcask/include/bitcask.h b/bitcask/include/bitcask.h
index 6e2a281..8f06d0c 100644
--- a/bitcask/include/bitcask.h
+++ b/bitcask/include/bitcask.h
@@ -131,6 +131,8 @@ namespace bitcask
         // INITIALIZATION & RECOVERY
         // ====================================================================
 
+        static kio::Result<void> validate(const BitcaskConfig& config, size_t partition_count);
+        static kio::Task<kio::Result<std::unique_ptr<Partition>>> open_partition(const BitcaskConfig& config, kio::io::Worker& worker, size_t partition_id);
         static kio::DetachedTask initialize_partition(BitKV& db, kio::io::Worker&, InitState& state);
 
         /**
diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index 8e268b7..7f34cd3 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -18,6 +18,13 @@ BitKV::BitKV(const BitcaskConfig& db_config, const WorkerConfig& io_config, cons
 Task<Result<std::unique_ptr<BitKV>>> BitKV::open(const BitcaskConfig& config, const WorkerConfig io_config, size_t partition_count)
 {
     ALOG_INFO("Opening BitKV with part count {}", partition_count);
+
+    if (auto valid = validate(config, partition_count); !valid.has_value())
+    {
+        ALOG_ERROR("Invalid BitKV configuration");
+        co_return std::unexpected(valid.error());
+    }
+
     std::unique_ptr<BitKV> db(new BitKV(config, io_config, partition_count));
 
     try
@@ -35,7 +42,16 @@ Task<Result<std::unique_ptr<BitKV>>> BitKV::open(const BitcaskConfig& config, co
 
     InitState state(partition_count);
 
-    auto io_pool = std::make_unique<IOPool>(partition_count, io_config, [db_ptr = db.get(), &state](Worker& worker) { initialize_partition(*db_ptr, worker, state).detach(); });
+    std::unique_ptr<IOPool> io_pool;
+    try
+    {
+        io_pool = std::make_unique<IOPool>(partition_count, io_config, [db_ptr = db.get(), &state](Worker& worker) { initialize_partition(*db_ptr, worker, state).detach(); });
+    }
+    catch (const std::exception& e)
+    {
+        ALOG_ERROR("Failed to start the BitKV workers: {}", e.what());
+        co_return std::unexpected(Error{ErrorCategory::Application, 1001});
+    }
 
     state.latch.wait();
 
@@ -105,6 +121,13 @@ void BitKV::check_or_create_manifest() const
 
         const auto& manifest = res.value();
 
+        // struct_pack ignores what follows
+        if (buffer != struct_pack::serialize(manifest) || manifest.version != Manifest{}.version)
+        {
+            ALOG_ERROR("Corrupted or unsupported MANIFEST file");
+            throw std::runtime_error("Corrupted MANIFEST");
+        }
+
         if (manifest.magic != kManifestMagic)
         {
             ALOG_ERROR("Invalid MANIFEST magic");
@@ -125,7 +148,11 @@ void BitKV::check_or_create_manifest() const
         manifest.partition_count = static_cast<uint32_t>(partition_count_);
         auto data = struct_pack::serialize(manifest);
 
-        std::ofstream file(manifest_path, std::ios::binary);
+        // Complete or not there at all: a partial manifest would lock the database
+        auto tmp_path = manifest_path;
+        tmp_path += ".tmp";
+
+        std::ofstream file(tmp_path, std::ios::binary);
         file.write(data.data(), static_cast<int>(data.size()));
         file.close();
 
@@ -134,14 +161,45 @@ void BitKV::check_or_create_manifest() const
             ALOG_ERROR("Failed to write MANIFEST");
             throw std::runtime_error("Failed to write MANIFEST");
         }
+        std::filesystem::rename(tmp_path, manifest_path);
     }
 }
 
 
+Result<void> BitKV::validate(const BitcaskConfig& config, const size_t partition_count)
+{
+    const auto invalid = std::unexpected(Error{ErrorCategory::Application, kAppInvalidArg});
+
+    // A file ID has 16 bits for the partition
+    if (partition_count == 0 || partition_count > 0x10000) return invalid;
+    if (config.directory.empty()) return invalid;
+    if (config.max_file_size == 0 || config.read_buffer_size == 0) return invalid;
+    // also refuses NaN
+    if (!(config.fragmentation_threshold >= 0.0 && config.fragmentation_threshold <= 1.0)) return invalid;
+    if (config.auto_compact && config.compaction_interval_s <= 0ms) return invalid;
+    if (!config.sync_on_write && config.sync_interval <= 0ms) return invalid;
+
+    return {};
+}
+
+// The initialization waits for every partition: an exception has to become an error
+Task<Result<std::unique_ptr<Partition>>> BitKV::open_partition(const BitcaskConfig& config, Worker& worker, const size_t partition_id)
+{
+    try
+    {
+        co_return co_await Partition::open(config, worker, partition_id);
+    }
+    catch (const std::exception& e)
+    {
+        ALOG_ERROR("Partition open failed, partition_id={}: {}", partition_id, e.what());
+        co_return std::unexpected(Error{ErrorCategory::Application, 1001});
+    }
+}
+
 DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, InitState& state)
 {
     size_t current_id = worker.get_id();
-    auto res = co_await Partition::open(db.db_config_, worker, current_id);
+    auto res = co_await open_partition(db.db_config_, worker, current_id);
 
     if (!res)
     {
@@ -167,12 +225,17 @@ DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, InitState& s
 
 Task<Result<void>> BitKV::close() const
 {
+    // Close all of them, then report the first failure
+    Result<void> result{};
     for (const auto& partition: partitions_)
     {
-        co_await partition->async_close();
+        if (auto res = co_await partition->async_close(); !res.has_value() && result.has_value())
+        {
+            result = res;
+        }
     }
 
-    co_return {};
+    co_return result;
 }
 
 size_t BitKV::route_to_partition(const std::string_view key) const
-- 
2.43.0


From ffa9d13f222a67504a5c95663811bc91d5c8ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 44/54] fix: opening a store must not wait for a worker whose
 ring could not be set up

---
 bitcask/include/bitcask.h |  1 +
 bitcask/src/bitcask.cpp   | 36 +++++++++++++++++++++++++-----------
 kio/core/worker.cpp       |  1 +
 kio/core/worker.h         |  6 ++++++
 4 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/bitcask/include/bitcask.h b/bitcask/include/bitcask.h
index 8f06d0c..c4f7f88 100644
--- a/bitcask/include/bitcask.h
+++ b/bitcask/include/bitcask.h
@@ -133,6 +133,7 @@ namespace bitcask
 
         static kio::Result<void> validate(const BitcaskConfig& config, size_t partition_count);
         static kio::Task<kio::Result<std::unique_ptr<Partition>>> open_partition(const BitcaskConfig& config, kio::io::Worker& worker, size_t partition_id);
+        static void fail_partition(InitState& state, const kio::Error& error);
         static kio::DetachedTask initialize_partition(BitKV& db, kio::io::Worker&, InitState& state);
 
         /**
diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index 7f34cd3..1e32472 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -53,6 +53,15 @@ Task<Result<std::unique_ptr<BitKV>>> BitKV::open(const BitcaskConfig& config, co
         co_return std::unexpected(Error{ErrorCategory::Application, 1001});
     }
 
+    // A worker that could not be set up never opens its partition
+    for (size_t i = 0; i < partition_count; ++i)
+    {
+        if (!io_pool->get_worker(i)->is_initialized())
+        {
+            fail_partition(state, Error{ErrorCategory::Application, 1001});
+        }
+    }
+
     state.latch.wait();
 
     if (state.has_error)
@@ -196,6 +205,21 @@ Task<Result<std::unique_ptr<Partition>>> BitKV::open_partition(const BitcaskConf
     }
 }
 
+void BitKV::fail_partition(InitState& state, const Error& error)
+{
+    state.has_error.store(true);
+    {
+        std::lock_guard lock(state.error_mutex);
+        if (!state.first_error)
+        {
+            state.first_error = error;
+        }
+    }
+
+    // Still count down!
+    state.latch.count_down();
+}
+
 DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, InitState& state)
 {
     size_t current_id = worker.get_id();
@@ -205,17 +229,7 @@ DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, InitState& s
     {
         ALOG_ERROR("Partition open failed, partition_id={}", current_id);
         // the detached task does not propagate errors or exception, so store the state
-        state.has_error.store(true);
-        {
-            std::lock_guard lock(state.error_mutex);
-            if (!state.first_error)
-            {
-                state.first_error = res.error();
-            }
-        }
-
-        // Still count down!
-        state.latch.count_down();
+        fail_partition(state, res.error());
         co_return;
     }
 
diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index d442384..b011b71 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -214,6 +214,7 @@ namespace kio::io
             check_kernel_version();
 
             initialize();
+            initialized_.store(true, std::memory_order_release);
 
             // This guarantees that any thread waiting on `wait_ready()` will see
             // the fully initialized state, including the correct thread_id.
diff --git a/kio/core/worker.h b/kio/core/worker.h
index 1e5a27d..4deab52 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -162,6 +162,7 @@ namespace kio::io
         std::stop_token stop_token_;
         // to avoid a double shutdown
         std::atomic<bool> stopped_{false};
+        std::atomic<bool> initialized_{false};
         WorkerStats stats_{};
 
         std::function<void(Worker&)> worker_init_callback_;
@@ -234,6 +235,11 @@ namespace kio::io
 
         void wait_ready() const { init_latch_.wait(); }
         void wait_shutdown() const { shutdown_latch_.wait(); }
+        /**
+         * @brief Tells whether the worker's event loop could be set up. Only meaningful after wait_ready():
+         * the init callback never runs on a worker that failed.
+         */
+        [[nodiscard]] bool is_initialized() const noexcept { return initialized_.load(std::memory_order_acquire); }
         [[nodiscard]]
         bool request_stop();
         void initialize();
-- 
2.43.0


From 4eacffc9bd20e6673b8c329ecee6dfdd35150690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 45/54] fix: a TLS stream without an offloaded session refuses
 to read and write

async_read, async_write, async_write_exact and async_sendfile used the raw
socket whatever the state of the stream, so data written before the
handshake, or after one that failed or could not be offloaded, left in the
clear.
---
 kio/tls/stream.cpp | 21 +++++++++++++++++++++
 kio/tls/stream.h   |  2 +-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index ae280c9..0081452 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -15,6 +15,14 @@ namespace kio::tls
         co_return result;
     }
 
+    // Only the kernel encrypts what goes through the socket: before (or without) offload,
+    // reading and writing it would exchange plaintext.
+    template<typename T>
+    static Task<Result<T>> not_connected_task()
+    {
+        co_return std::unexpected(Error{ErrorCategory::Tls, kTlsNotConnected});
+    }
+
     TlsStream::TlsStream(io::Worker& worker, net::Socket socket, TlsContext& context, const TlsRole role) : worker_(worker), ctx_(context), socket_(std::move(socket)), role_(role)
     {
         ssl_ = SSL_new(ctx_.get());
@@ -142,6 +150,8 @@ namespace kio::tls
 
     Task<Result<int>> TlsStream::async_read(std::span<char> buf)
     {
+        if (!ktls_active_) return not_connected_task<int>();
+
         // Drain OpenSSL buffer if needed (rare path)
         if (ssl_ && SSL_pending(ssl_) > 0)
         {
@@ -160,14 +170,25 @@ namespace kio::tls
 
     Task<Result<int>> TlsStream::async_write(std::span<const char> buf)
     {
+        if (!ktls_active_) return not_connected_task<int>();
+
         return worker_.async_write(socket_.get(), buf);
     }
 
     Task<Result<void>> TlsStream::async_write_exact(std::span<const char> buf)
     {
+        if (!ktls_active_) return not_connected_task<void>();
+
         return worker_.async_write_exact(socket_.get(), buf);
     }
 
+    Task<Result<void>> TlsStream::async_sendfile(const int in_fd, const off_t offset, const size_t count)
+    {
+        if (!ktls_active_) return not_connected_task<void>();
+
+        return worker_.async_sendfile(socket_.get(), in_fd, offset, count);
+    }
+
     Task<Result<void>> TlsStream::do_shutdown_step()
     {
         const auto st = worker_.get_stop_token();
diff --git a/kio/tls/stream.h b/kio/tls/stream.h
index 4f2b24c..b19e022 100644
--- a/kio/tls/stream.h
+++ b/kio/tls/stream.h
@@ -117,7 +117,7 @@ namespace kio::tls
          * @param count Number of bytes to send
          * @return void on success, error on failure
          */
-        Task<Result<void>> async_sendfile(const int in_fd, const off_t offset, const size_t count) { return worker_.async_sendfile(socket_.get(), in_fd, offset, count); }
+        Task<Result<void>> async_sendfile(int in_fd, off_t offset, size_t count);
 
         /**
          * @brief Perform clean TLS shutdown (sends close_notify)
-- 
2.43.0


From b0f67ab821e526b1dcd4589e7405998e4def2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 46/54] fix: repeating a TLS handshake whose session could not
 be offloaded fails again

async_handshake marked the handshake as done before offload was known to
work, so the second call reported success for a stream without offload.
---
 kio/tls/stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 0081452..88cddaa 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -94,7 +94,8 @@ namespace kio::tls
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
     {
-        if (handshake_done_) co_return {};
+        // a session that could not be offloaded stays unusable
+        if (handshake_done_) co_return enable_ktls();
 
         if (role_ == TlsRole::Client && !hostname.empty())
         {
-- 
2.43.0


From 3bc50b6a03ee3a421a9c33fdb004ea3f56759032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 47/54] fix: a TLS handshake interrupted by the worker's stop
 is not a success

When the stop was requested after both directions had been handed to the
kernel but before the peer's Finished message was verified, the handshake
reported success.
---
 kio/tls/stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 88cddaa..70cece8 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -89,7 +89,8 @@ namespace kio::tls
             }
         }
 
-        co_return {};
+        // the worker is stopping and the handshake is not finished
+        co_return std::unexpected(Error::from_errno(ECANCELED));
     }
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
-- 
2.43.0


From 14fcc0a3d41df790615e961becf77b303923f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 48/54] fix: a TLS stream never blocks its worker on the socket

Accepted sockets are blocking, so SSL_accept and SSL_shutdown stopped the
worker's thread, and everything else on it, until the peer sent something.
---
 kio/tls/stream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 70cece8..ca88047 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -3,6 +3,8 @@
 //
 #include "stream.h"
 
+#include <fcntl.h>
+
 #include "context.h"
 
 namespace kio::tls
@@ -35,6 +37,12 @@ namespace kio::tls
             SSL_free(ssl_);
             throw std::runtime_error("Failed to set SSL fd: " + detail::get_openssl_error());
         }
+        // OpenSSL reads and writes the socket itself during the handshake and the shutdown: on a
+        // blocking socket (accepted ones are) it would block the worker's thread until the peer acts
+        if (const int flags = ::fcntl(socket_.get(), F_GETFL); flags >= 0 && (flags & O_NONBLOCK) == 0)
+        {
+            ::fcntl(socket_.get(), F_SETFL, flags | O_NONBLOCK);
+        }
         // SSL_MODE_ENABLE_PARTIAL_WRITE is crucial for async
         SSL_set_mode(ssl_, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
 
-- 
2.43.0


From d8cdd34cbebbdfe5b6e2b35918d0075f6cda91f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 49/54] fix: moving a TLS stream keeps its peer address

TlsListener::accept returns the stream by move, so peer_ip() and
peer_port() of every accepted stream were empty.
---
 kio/tls/stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index ca88047..3ab9305 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -51,7 +51,7 @@ namespace kio::tls
 
     TlsStream::TlsStream(TlsStream&& other) noexcept :
         worker_(other.worker_), ctx_(other.ctx_), socket_(std::move(other.socket_)), ssl_(std::exchange(other.ssl_, nullptr)), role_(other.role_), server_name_(std::exchange(other.server_name_, "")),
-        handshake_done_(other.handshake_done_), ktls_active_(other.ktls_active_)
+        peer_addr_(std::move(other.peer_addr_)), handshake_done_(other.handshake_done_), ktls_active_(other.ktls_active_)
     {
         other.handshake_done_ = false;
         other.ktls_active_ = false;
-- 
2.43.0


From 8fad924daad35d5f775874245a36307ae08b2a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 50/54] fix: a TLS listener binds IPv6 addresses

The socket was always AF_INET, whatever the address resolved to.
---
 kio/tls/listener.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kio/tls/listener.cpp b/kio/tls/listener.cpp
index d14e5db..e253582 100644
--- a/kio/tls/listener.cpp
+++ b/kio/tls/listener.cpp
@@ -15,7 +15,13 @@ namespace kio::tls
 {
     Result<TlsListener> TlsListener::bind(Worker& worker, const ListenerConfig& config, TlsContext& ctx)
     {
-        auto fd_res = create_tcp_fd(AF_INET);
+        auto addr_res = resolve_address(config.bind_address, config.port);
+        if (!addr_res.has_value())
+        {
+            return std::unexpected(addr_res.error());
+        }
+
+        auto fd_res = create_tcp_fd(addr_res.value().family);
         if (!fd_res.has_value())
         {
             return std::unexpected(fd_res.error());
@@ -39,12 +45,6 @@ namespace kio::tls
             ::setsockopt(socket.get(), SOL_SOCKET, SO_REUSEPORT, &opt, sizeof(opt));
         }
 
-        auto addr_res = resolve_address(config.bind_address, config.port);
-        if (!addr_res.has_value())
-        {
-            return std::unexpected(addr_res.error());
-        }
-
         // now bind and listen
         if (auto res = listen_on_sock(socket.get(), addr_res.value(), config.backlog); !res.has_value())
         {
-- 
2.43.0


From fe6cf9891e3b43f06476f6488b3cbe6fa5bc737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 51/54] fix: a TLS context refuses a CA directory it cannot
 read

---
 kio/tls/context.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kio/tls/context.cpp b/kio/tls/context.cpp
index 376052a..05e4074 100644
--- a/kio/tls/context.cpp
+++ b/kio/tls/context.cpp
@@ -4,7 +4,9 @@
 
 #include "context.h"
 
+#include <filesystem>
 #include <fstream>
+#include <unistd.h>
 
 namespace kio::tls
 {
@@ -132,6 +134,14 @@ namespace kio::tls
             const char* ca_file = config.ca_cert_path.empty() ? nullptr : config.ca_cert_path.c_str();
             const char* ca_dir = config.ca_dir_path.empty() ? nullptr : config.ca_dir_path.c_str();
 
+            // OpenSSL takes any directory name and looks into it only when a chain is verified
+            if (std::error_code ec; ca_dir != nullptr && (!std::filesystem::is_directory(config.ca_dir_path, ec) || ::access(ca_dir, R_OK | X_OK) != 0))
+            {
+                ALOG_ERROR("CA directory {} is not a readable directory", config.ca_dir_path.string());
+                SSL_CTX_free(ctx);
+                return std::unexpected(Error{ErrorCategory::Tls, kTlsCertificateLoadFailed});
+            }
+
             if (SSL_CTX_load_verify_locations(ctx, ca_file, ca_dir) != 1)
             {
                 ALOG_ERROR("Failed to load CA certificates: {}", detail::get_openssl_error());
-- 
2.43.0


From 1301a65acd2225ff54f9e280155b714da36f1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 52/54] fix: a TLS context refuses ALPN names that cannot be
 sent

A name of more than 255 bytes had its length truncated, so other names than
the configured ones were offered, or none.
---
 kio/tls/context.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/kio/tls/context.cpp b/kio/tls/context.cpp
index 05e4074..7e05aa7 100644
--- a/kio/tls/context.cpp
+++ b/kio/tls/context.cpp
@@ -189,10 +189,23 @@ namespace kio::tls
             std::vector<unsigned char> protos;
             for (const auto& p: config.alpn_protocols)
             {
+                // a name's length is sent as one byte
+                if (p.empty() || p.length() > 255)
+                {
+                    ALOG_ERROR("Invalid ALPN protocol name of {} bytes", p.length());
+                    SSL_CTX_free(ctx);
+                    return std::unexpected(Error{ErrorCategory::Tls, kTlsContextCreationFailed});
+                }
                 protos.push_back(static_cast<unsigned char>(p.length()));
                 protos.insert(protos.end(), p.begin(), p.end());
             }
-            SSL_CTX_set_alpn_protos(ctx, protos.data(), protos.size());
+            // unlike its siblings, this returns 0 on success
+            if (SSL_CTX_set_alpn_protos(ctx, protos.data(), protos.size()) != 0)
+            {
+                ALOG_ERROR("Failed to set ALPN protocols: {}", detail::get_openssl_error());
+                SSL_CTX_free(ctx);
+                return std::unexpected(Error{ErrorCategory::Tls, kTlsContextCreationFailed});
+            }
         }
 
         return TlsContext{ctx, role == TlsRole::Server};
-- 
2.43.0


From e3867254a5b5ece4698967d2ee36b551bb8cba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 53/54] fix: TLS clients honour verify_hostname and server_name

Both settings were accepted and ignored: the host name was always verified,
and a handshake that named no host verified none although the configuration
names the server.
---
 kio/tls/context.cpp |  5 ++++-
 kio/tls/context.h   | 14 +++++++++++++-
 kio/tls/stream.cpp  |  7 ++++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/kio/tls/context.cpp b/kio/tls/context.cpp
index 7e05aa7..d6367c5 100644
--- a/kio/tls/context.cpp
+++ b/kio/tls/context.cpp
@@ -208,7 +208,10 @@ namespace kio::tls
             }
         }
 
-        return TlsContext{ctx, role == TlsRole::Server};
+        TlsContext result{ctx, role == TlsRole::Server};
+        result.verify_hostname_ = config.verify_hostname;
+        result.server_name_ = config.server_name;
+        return result;
     }
 
     bool is_ktls_available()
diff --git a/kio/tls/context.h b/kio/tls/context.h
index b19bfef..54de28c 100644
--- a/kio/tls/context.h
+++ b/kio/tls/context.h
@@ -70,6 +70,8 @@ namespace kio::tls
     {
         SSL_CTX* ctx_{nullptr};
         bool is_server_{true};
+        bool verify_hostname_{true};
+        std::string server_name_{};
         explicit TlsContext(SSL_CTX* ctx, const bool is_server = true) : ctx_(ctx), is_server_(is_server) {}
         static Result<TlsContext> make(const TlsConfig& config, TlsRole role);
 
@@ -83,7 +85,10 @@ namespace kio::tls
         }
 
         // Move-only
-        TlsContext(TlsContext&& other) noexcept : ctx_(std::exchange(other.ctx_, nullptr)) {}
+        TlsContext(TlsContext&& other) noexcept :
+            ctx_(std::exchange(other.ctx_, nullptr)), is_server_(other.is_server_), verify_hostname_(other.verify_hostname_), server_name_(std::move(other.server_name_))
+        {
+        }
 
         TlsContext& operator=(TlsContext&& other) noexcept
         {
@@ -91,6 +96,9 @@ namespace kio::tls
             {
                 if (ctx_) SSL_CTX_free(ctx_);
                 ctx_ = std::exchange(other.ctx_, nullptr);
+                is_server_ = other.is_server_;
+                verify_hostname_ = other.verify_hostname_;
+                server_name_ = std::move(other.server_name_);
             }
             return *this;
         }
@@ -104,6 +112,10 @@ namespace kio::tls
             return ctx_;
         }
 
+        // TlsConfig::verify_hostname and TlsConfig::server_name (used when a client's handshake names no host)
+        [[nodiscard]] bool verify_hostname() const noexcept { return verify_hostname_; }
+        [[nodiscard]] const std::string& server_name() const noexcept { return server_name_; }
+
         /**
          * Creates a TLS context for clients
          * @param config TLS configurations
diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 3ab9305..3bb0b5f 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -106,11 +106,16 @@ namespace kio::tls
         // a session that could not be offloaded stays unusable
         if (handshake_done_) co_return enable_ktls();
 
+        if (hostname.empty()) hostname = ctx_.server_name();
         if (role_ == TlsRole::Client && !hostname.empty())
         {
             server_name_ = std::string(hostname);
             SSL_set_tlsext_host_name(ssl_, server_name_.c_str());
-            SSL_set1_host(ssl_, server_name_.c_str());
+            if (ctx_.verify_hostname() && SSL_set1_host(ssl_, server_name_.c_str()) != 1)
+            {
+                ALOG_ERROR("Cannot verify the host name: {}", detail::get_openssl_error());
+                co_return std::unexpected(Error{ErrorCategory::Tls, kTlsHandshakeFailed});
+            }
         }
 
         ALOG_DEBUG("Starting TLS handshake for fd={}", socket_.get());
-- 
2.43.0


From e10a9a0c612d876e0c21967e8cfb8caa32cebba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 54/54] fix: closing a TLS stream does not wait for ever for
 the peer's close_notify

The documented timeout did not exist: a peer that neither answers nor closes
kept async_shutdown and async_close suspended.
---
 kio/tls/stream.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 3bb0b5f..7b80bb4 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -209,6 +209,8 @@ namespace kio::tls
         const auto st = worker_.get_stop_token();
         constexpr int kMaxShutdownIterations = 10;
         int iterations = 0;
+        // A peer may never answer, so its answer is waited for about a second in growing steps
+        auto delay = std::chrono::milliseconds(1);
 
         while (!st.stop_requested() && iterations++ < kMaxShutdownIterations)
         {
@@ -223,21 +225,21 @@ namespace kio::tls
             if (ret == 0)
             {
                 // Wait for peer's close_notify
-                if (const auto poll_res = co_await worker_.async_poll(socket_.get(), POLLIN); !poll_res)
+                if (const auto res = co_await worker_.async_sleep(delay); !res)
                 {
-                    ALOG_DEBUG("TLS shutdown: poll failed, treating as complete");
+                    ALOG_DEBUG("TLS shutdown: waiting failed, treating as complete");
                     co_return {};
                 }
+                delay *= 2;
                 continue;
             }
 
             switch (const int err = SSL_get_error(ssl_, ret))
             {
                 case SSL_ERROR_WANT_READ:
-                    KIO_TRY(co_await worker_.async_poll(socket_.get(), POLLIN));
-                    break;
                 case SSL_ERROR_WANT_WRITE:
-                    KIO_TRY(co_await worker_.async_poll(socket_.get(), POLLOUT));
+                    KIO_TRY(co_await worker_.async_sleep(delay));
+                    delay *= 2;
                     break;
                 case SSL_ERROR_ZERO_RETURN:
                 case SSL_ERROR_SYSCALL:
-- 
2.43.0

