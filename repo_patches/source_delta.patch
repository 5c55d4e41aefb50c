From 54c3d08f51bb69880eba9d466b112580e2976c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 01/62] fix: let a queue of capacity one tell a full slot from
 a free one

---
 kio/sync/mpsc_queue.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/kio/sync/mpsc_queue.h b/kio/sync/mpsc_queue.h
index b174d12..2692d03 100644
--- a/kio/sync/mpsc_queue.h
+++ b/kio/sync/mpsc_queue.h
@@ -58,10 +58,12 @@ namespace kio
             // Capacity must be power of 2
             assert(capacity > 0 && (capacity & (capacity - 1)) == 0 && "Capacity must be a power of 2");
 
-            // Initialize sequence numbers for each slot (no T construction)
+            // Initialize sequence numbers for each slot (no T construction).
+            // A slot is free for position p when its sequence is 2p and holds the element of position p
+            // when it is 2p + 1, so that both states stay distinct even with a single slot.
             for (size_t i = 0; i < capacity; ++i)
             {
-                buffer_[i].sequence.store(i, std::memory_order_relaxed);
+                buffer_[i].sequence.store(2 * i, std::memory_order_relaxed);
             }
 
             enqueue_pos_.store(0, std::memory_order_relaxed);
@@ -90,11 +92,11 @@ namespace kio
                     Cell &cell = buffer_[i & mask_];
 
                     // Check if this cell contains a constructed object
-                    if (const size_t seq = cell.sequence.load(std::memory_order_relaxed); seq == i + 1)
+                    if (const size_t seq = cell.sequence.load(std::memory_order_relaxed); seq == 2 * i + 1)
                     {
                         cell.destroy_in_place();
                         // Mark as empty for safety
-                        cell.sequence.store(i + mask_ + 1, std::memory_order_relaxed);
+                        cell.sequence.store(2 * (i + mask_ + 1), std::memory_order_relaxed);
                     }
                 }
             }
@@ -115,7 +117,7 @@ namespace kio
                 cell = &buffer_[pos & mask_];
                 const size_t seq = cell->sequence.load(std::memory_order_acquire);
 
-                if (const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(pos); diff == 0)
+                if (const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(2 * pos); diff == 0)
                 {
                     if (enqueue_pos_.compare_exchange_weak(pos, pos + 1, std::memory_order_relaxed, std::memory_order_relaxed))
                     {
@@ -135,7 +137,7 @@ namespace kio
             // Construct directly in cell storage from a forwarded argument
             cell->construct_in_place(std::forward<U>(u));
 
-            cell->sequence.store(pos + 1, std::memory_order_release);
+            cell->sequence.store(2 * pos + 1, std::memory_order_release);
             return true;
         }
 
@@ -152,7 +154,7 @@ namespace kio
             {
                 cell = &buffer_[pos & mask_];
                 const size_t seq = cell->sequence.load(std::memory_order_acquire);
-                const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(pos + 1);
+                const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(2 * pos + 1);
 
                 if (diff == 0)
                 {
@@ -177,7 +179,7 @@ namespace kio
             cell->destroy_in_place();
 
             // Mark the slot as available for producers again:
-            cell->sequence.store(pos + mask_ + 1, std::memory_order_release);
+            cell->sequence.store(2 * (pos + mask_ + 1), std::memory_order_release);
 
             return true;
         }
-- 
2.43.0


From ed28ab37c183be51e8e36706a2f8889d16c74dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 02/62] fix: do not close descriptor 0 when a worker's ring was
 never created

---
 kio/core/worker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 6ae1476..5964e1a 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -105,6 +105,9 @@ namespace kio::io
     {
         config_.check();
 
+        // no ring yet: descriptor 0 would be a valid one
+        ring_.ring_fd = -1;
+
         wakeup_fd_ = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
         if (wakeup_fd_ < 0)
         {
@@ -127,6 +130,7 @@ namespace kio::io
 
         if (const int ret = io_uring_queue_init_params(static_cast<int>(config_.uring_queue_depth), &ring_, &params); ret < 0)
         {
+            ring_.ring_fd = -1;  // liburing zeroes the structure before it fails
             throw std::system_error(-ret, std::system_category(), "io_uring_queue_init failed");
         }
 
-- 
2.43.0


From 280e2012cfcda43cacda726bee48b185b95f4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 03/62] fix: signal a worker's ready and shutdown latches at
 most once

---
 kio/core/worker.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index c5ab448..60183b6 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -155,6 +155,8 @@ namespace kio::io
 
         std::latch init_latch_{1};
         std::latch shutdown_latch_{1};
+        std::atomic_flag init_signaled_{};
+        std::atomic_flag shutdown_signaled_{};
         std::stop_source stop_source_;
         // updated by all run method
         std::stop_token stop_token_;
@@ -201,8 +203,15 @@ namespace kio::io
          * @return bool
          */
         [[nodiscard]] bool is_on_worker_thread() const;
-        void signal_init_complete() { init_latch_.count_down(); }
-        void signal_shutdown_complete() { shutdown_latch_.count_down(); }
+        // Both are idempotent: counting a latch down below zero would make its waiters wait forever.
+        void signal_init_complete()
+        {
+            if (!init_signaled_.test_and_set()) init_latch_.count_down();
+        }
+        void signal_shutdown_complete()
+        {
+            if (!shutdown_signaled_.test_and_set()) shutdown_latch_.count_down();
+        }
 
         /**
          *@brief Gets a std::jthread stop token linked to the worker thread
-- 
2.43.0


From 2a2d0d615a82581e1126056799f8ede0e09b4ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 04/62] fix: always grow the op slot pool by at least one slot

---
 kio/core/worker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 5964e1a..8a429d5 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -72,7 +72,8 @@ namespace kio::io
         }
 
         const auto cur_size = op_data_pool_.size();
-        size_t new_size = std::min(static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor), config_.max_op_slots);
+        // small pools must grow too: the factor alone truncates to the current size
+        size_t new_size = std::min(std::max(cur_size + 1, static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor)), config_.max_op_slots);
         ALOG_DEBUG("Growing op_data_pool_ from {} to {}", cur_size, new_size);
         op_data_pool_.resize(new_size);
         for (size_t i = cur_size; i < new_size; ++i)
-- 
2.43.0


From dd5a79e45d49fa20135228b15b0b2f49f7c2e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 05/62] fix: do not leave an unprepared SQE in the ring when no
 op slot is left

---
 kio/core/uring_awaitable.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kio/core/uring_awaitable.h b/kio/core/uring_awaitable.h
index 42e96bb..0669ce0 100644
--- a/kio/core/uring_awaitable.h
+++ b/kio/core/uring_awaitable.h
@@ -39,16 +39,19 @@ namespace kio::io
                    "kio::async_* operation was called from the wrong thread. "
                    "You must co_await SwitchToWorker(worker) at the start of your task.");
 
+            // allocate an op id first: it may throw, and an SQE taken from the ring cannot be given back
+            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+
             sqe_ = io_uring_get_sqe(&internal::WorkerAccess::get_ring(worker_));
             if (sqe_ == nullptr)
             {
                 // no SQE available right now; return error immediately
+                internal::WorkerAccess::release_op_id(worker_, op_id_);
                 immediate_result_ = -EAGAIN;
                 return false;
             }
 
-            // allocate an op id and record the coroutine handle
-            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+            // record the coroutine handle
             internal::WorkerAccess::init_op_slot(worker_, op_id_, h);
 
             // Call prep sqe
-- 
2.43.0


From 30e39c3d12eba23aed823f89a5fe96af15e46f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 06/62] fix: let a timed baton wait end exactly once, whoever
 wins

A timer that expired while notify() was running returned at once although
notify() was still going to post the finished coroutine; the timer's timespec
could be read by the kernel after the frame was gone; a full submission queue
timed out immediately; running out of op slots threw through noexcept.
---
 kio/sync/baton.h | 76 +++++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/kio/sync/baton.h b/kio/sync/baton.h
index eb03e29..eaa8158 100644
--- a/kio/sync/baton.h
+++ b/kio/sync/baton.h
@@ -132,7 +132,8 @@ namespace kio::sync
                 __kernel_timespec ts{};
                 bool timer_submitted = false;
                 bool baton_signaled = false;
-                std::atomic<bool> resumed{false};
+                // notify() saw us waiting but we did not suspend for it: it is going to post us once more
+                bool post_pending = false;
 
                 bool await_ready() noexcept
                 {
@@ -144,8 +145,12 @@ namespace kio::sync
                     return false;
                 }
 
-                bool await_suspend(std::coroutine_handle<> h) noexcept
+                bool await_suspend(std::coroutine_handle<> h)
                 {
+                    // May throw when no slot is left, so do it before anyone knows about us
+                    timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
+                    io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);
+
                     // Step 1: Register with baton FIRST
                     baton.waiter_.store(h, std::memory_order_relaxed);
                     std::atomic_thread_fence(std::memory_order_release);
@@ -153,33 +158,30 @@ namespace kio::sync
                     if (uint8_t expected = NOT_SET; !baton.state_.compare_exchange_strong(expected, WAITING, std::memory_order_acq_rel, std::memory_order_acquire))
                     {
                         // Baton already SET - no timeout needed
+                        io::internal::WorkerAccess::release_op_id(baton.owner_, timer_op_id);
                         baton_signaled = true;
                         return false;
                     }
 
                     // Set up the timer (baton is now in WAITING state)
-                    timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
-                    io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);
-
                     ts.tv_sec = std::chrono::duration_cast<std::chrono::seconds>(duration).count();
                     ts.tv_nsec = (duration % std::chrono::seconds(1)).count();
 
-                    io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_));
+                    io_uring& ring = io::internal::WorkerAccess::get_ring(baton.owner_);
+                    io_uring_sqe* sqe = io_uring_get_sqe(&ring);
+                    if (!sqe)
+                    {
+                        // SQ is full - force a submission to make room
+                        io_uring_submit(&ring);
+                        sqe = io_uring_get_sqe(&ring);
+                    }
                     if (!sqe)
                     {
                         // Failed to get SQE - must unregister from baton
                         io::internal::WorkerAccess::release_op_id(baton.owner_, timer_op_id);
-                        timer_op_id = static_cast<uint64_t>(-1);
 
-                        if (uint8_t state = WAITING; baton.state_.compare_exchange_strong(state, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                        {
-                            // Successfully unregistered - immediate timeout
-                            baton_signaled = false;
-                            return false;
-                        }
-
-                        // Baton was signaled while we were cleaning up
-                        baton_signaled = true;
+                        // Either unregistered - immediate timeout - or signaled while we were cleaning up
+                        baton_signaled = post_pending = !unregister();
                         return false;
                     }
 
@@ -192,22 +194,15 @@ namespace kio::sync
 
                 void await_resume()
                 {
-                    // Protect against double-resume
-                    if (resumed.exchange(true, std::memory_order_acq_rel))
-                    {
-                        // Already resumed once, this is a spurious resume
-                        return;
-                    }
-
                     // Check if result was already determined in await_suspend
                     if (!timer_submitted)
                     {
                         return;
                     }
 
-                    // Determine who resumed us by checking baton state
+                    // Determine who resumed us: a timer that is still armed has no result yet
 
-                    if (baton.state_.load(std::memory_order_acquire) == SET)
+                    if (io::internal::WorkerAccess::get_op_result(baton.owner_, timer_op_id) == 0)
                     {
                         // Baton signaled us
                         baton_signaled = true;
@@ -221,25 +216,17 @@ namespace kio::sync
                         // by replacing the handler with noop_coroutine()
                         io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
 
+                        // The kernel reads ts when the timer is submitted, which may not have happened yet
+                        io_uring_submit(&io::internal::WorkerAccess::get_ring(baton.owner_));
+
                         // DO NOT attempt to cancel - just let it timeout naturally
                         // The noop handler will safely consume the CQE when it arrives
                     }
                     else
                     {
-                        // We were resumed by timer CQE
-                        // Try to unregister from baton
-                        if (uint8_t expected = WAITING; baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                        {
-                            // Successfully unregistered - pure timeout
-                            baton_signaled = false;
-                        }
-                        else
-                        {
-                            // CAS failed - baton was SET concurrently
-                            // Report timeout (we're processing timer CQE)
-                            // Second resume from the task queue will be caught by double-resume check
-                            baton_signaled = false;
-                        }
+                        // We were resumed by timer CQE: either this is a pure timeout, or the baton was SET
+                        // concurrently and notify() is posting us
+                        baton_signaled = post_pending = !unregister();
                         // worker will release timer_op_id when processing the CQE
                     }
 
@@ -247,11 +234,22 @@ namespace kio::sync
                     timer_submitted = false;
                 }
 
+                bool unregister() noexcept
+                {
+                    uint8_t expected = WAITING;
+                    return baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire);
+                }
+
                 [[nodiscard]] bool was_signaled() const noexcept { return baton_signaled; }
             };
 
             TimeoutState state{*this, timeout};
             co_await state;
+            if (state.post_pending)
+            {
+                // We are still going to be resumed by notify(): returning now would let it resume a finished coroutine
+                co_await std::suspend_always{};
+            }
             co_return state.was_signaled();
         }
 
-- 
2.43.0


From 902cfbfbd598d8a5b2a6dff6754aa1f40426cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 07/62] fix: let AsyncEvent hand waiters to its worker through
 the attorney

Worker::post is private, so notify() did not compile.
---
 kio/sync/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/sync/event.h b/kio/sync/event.h
index a52631f..fc94999 100644
--- a/kio/sync/event.h
+++ b/kio/sync/event.h
@@ -112,7 +112,7 @@ namespace kio::sync
                 if (hptr)
                 {
                     std::coroutine_handle<> h = std::coroutine_handle<>::from_address(hptr);
-                    owner_.post(h);
+                    io::internal::WorkerAccess::post(owner_, h);
                 }
 
                 curr = next;
-- 
2.43.0


From 87e26357d7461d5bac92e68e01b1ef9663a33a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 08/62] fix: let when_any own the tasks it is given

The coroutine is lazy and kept references to its arguments, which dangle when
it is not awaited in the same expression.
---
 kio/sync/when_any.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kio/sync/when_any.h b/kio/sync/when_any.h
index 9596563..58a9177 100644
--- a/kio/sync/when_any.h
+++ b/kio/sync/when_any.h
@@ -5,6 +5,7 @@
 #ifndef KIO_WHEN_ANY_H
 #define KIO_WHEN_ANY_H
 #include <atomic>
+#include <memory>
 #include <tuple>
 
 #include "../core/coro.h"
@@ -75,7 +76,7 @@ namespace kio::sync
      *
      **/
     template<typename... Tasks>
-    Task<size_t> when_any(io::Worker& worker, Tasks&&... tasks)
+    Task<size_t> when_any(io::Worker& worker, Tasks... tasks)  // by value: the coroutine is lazy, references would dangle
     {
         constexpr size_t N = sizeof...(Tasks);
         static_assert(N > 0, "when_any requires at least one task");
@@ -84,7 +85,7 @@ namespace kio::sync
         auto state = std::make_shared<detail::WhenAnyState<N>>(worker);
 
         // Spawn all tasks
-        detail::spawn_tasks_impl(state, std::index_sequence_for<Tasks...>{}, std::forward<Tasks>(tasks)...);
+        detail::spawn_tasks_impl(state, std::index_sequence_for<Tasks...>{}, std::move(tasks)...);
 
         // Wait for first completion
         co_await state->done.wait();
-- 
2.43.0


From 7413b3da51730294e3b08cb4525f1821f592defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 09/62] fix: judge a record against one reading of the log
 level

---
 kio/core/async_logger.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 45f6113..5a6144e 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -152,8 +152,10 @@ namespace kio {
 
         [[nodiscard]]
         bool should_log(LogLevel lvl) const noexcept {
-            if (const auto current_level = level_.load(std::memory_order_relaxed); current_level == LogLevel::Disabled) return false;
-            return static_cast<int>(lvl) >= static_cast<int>(level_.load(std::memory_order_relaxed));
+            // load once: the level may change in between
+            const auto current_level = level_.load(std::memory_order_relaxed);
+            if (current_level == LogLevel::Disabled) return false;
+            return static_cast<int>(lvl) >= static_cast<int>(current_level);
         }
 
         template<typename... Args>
-- 
2.43.0


From 2df7278441989a8d78197551bd4fedf3c5f21c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 10/62] fix: let flush() run next to the logger's own thread

Both popped from the single-consumer queue and wrote to the stream.
---
 kio/core/async_logger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 5a6144e..b3e053f 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -11,6 +11,7 @@
 #include <functional>
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <source_location>
 #include <span>
 #include <string>
@@ -184,6 +185,8 @@ namespace kio {
         }
 
         void flush() {
+            // the queue has a single consumer and the stream a single writer
+            const std::lock_guard lock(flush_mutex_);
             LogMessage entry;
             while (queue_.try_pop(entry)) {
                 write(entry);
@@ -316,6 +319,7 @@ namespace kio {
         }
 
         MPSCQueue<LogMessage> queue_;
+        std::mutex flush_mutex_;
         std::atomic<LogLevel> level_;
         std::jthread consumer_thread_;
         int wakeup_fd_{-1};
-- 
2.43.0


From 5596a86b6a548ef066a761675f54b35a12e42156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 11/62] fix: wake the logger for a record that could not be
 formatted

Its replacement text was queued silently: written only with the next record,
and dropped without a report when the queue was full.
---
 kio/core/async_logger.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index b3e053f..58ea26a 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -220,17 +220,7 @@ namespace kio {
                     entry.set_large_message(std::move(large));
                 }
 
-                if (queue_.try_push(std::move(entry))) {
-                    if (wakeup_fd_ >= 0) {
-                        constexpr uint64_t val = 1;
-                        if (const ssize_t ret = ::write(wakeup_fd_, &val, sizeof(val)); ret < 0 && errno != EAGAIN) {
-                            std::osyncstream(std::cerr) << "Logger wakeup write() error: " << strerror(errno) <<
-                                    std::endl;
-                        }
-                    }
-                } else {
-                    std::osyncstream(std::cerr) << "Logger queue full. Dropping message.\n";
-                }
+                enqueue(std::move(entry));
             } catch (const std::exception &e) {
                 std::string fallback = std::string("<log format error: ") + e.what() + ">";
                 LogMessage entry{};
@@ -245,7 +235,21 @@ namespace kio {
                 } else {
                     entry.set_large_message(std::move(fallback));
                 }
-                (void) queue_.try_push(std::move(entry));
+                enqueue(std::move(entry));
+            }
+        }
+
+        void enqueue(LogMessage &&entry) {
+            if (queue_.try_push(std::move(entry))) {
+                if (wakeup_fd_ >= 0) {
+                    constexpr uint64_t val = 1;
+                    if (const ssize_t ret = ::write(wakeup_fd_, &val, sizeof(val)); ret < 0 && errno != EAGAIN) {
+                        std::osyncstream(std::cerr) << "Logger wakeup write() error: " << strerror(errno) <<
+                                std::endl;
+                    }
+                }
+            } else {
+                std::osyncstream(std::cerr) << "Logger queue full. Dropping message.\n";
             }
         }
 
-- 
2.43.0


From da9f470f9f5fec79182038ec226029c1d00d2412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 12/62] fix: refuse buffer lengths that overflow

---
 kio/core/bytes_mut.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index 5ace5fa..9bb8fc0 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -64,6 +64,10 @@ namespace kio
 
             const size_t data_len = remaining();
             const size_t available_total = buffer_.capacity();
+            if (additional > buffer_.max_size() - write_pos_)
+            {
+                throw std::length_error("BytesMut::reserve() beyond maximum size");
+            }
 
             // Strategy 1: Compact in place if it fits
             if (available_total >= data_len + additional) {
@@ -151,7 +155,7 @@ namespace kio
          */
         void commit_write(const size_t n)
         {
-            if (write_pos_ + n > buffer_.size())
+            if (n > writable())
             {
                 throw std::out_of_range("BytesMut::commit_write() beyond buffer size");
             }
-- 
2.43.0


From 160bb234df07a28e20ec41da8390626b37fe34ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 13/62] fix: require the CRLF that ends a bulk frame

---
 kio/resp/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 2e5901f..b683a67 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -132,6 +132,8 @@ namespace kio::resp
         const auto total = header_len + payload_len + 2;
         if (data.size() < total) return std::unexpected(ParseError::NeedMoreData);
 
+        if (data[total - 2] != '\r' || data[total - 1] != '\n') return std::unexpected(ParseError::MalformedFrame);
+
         return FrameHeader{type, data.data(), total, 0};
     }
 
-- 
2.43.0


From a00499ace3abe7684772f775e64c091e3c450331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 14/62] fix: reject a null frame that carries a payload

---
 kio/resp/parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index b683a67..5780a68 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -188,8 +188,14 @@ namespace kio::resp
             }
             case FrameType::SimpleString:
             case FrameType::SimpleError:
+                return FrameHeader{type, data.data(), *pos + 2, 0};
             case FrameType::Null:
+            {
+                // _\r\n carries no payload
+                if (*pos != 1) return std::unexpected(ParseError::MalformedFrame);
+
                 return FrameHeader{type, data.data(), *pos + 2, 0};
+            }
             case FrameType::BulkString:
             case FrameType::BulkError:
             case FrameType::VerbatimString:
-- 
2.43.0


From 82750d89bf2fe6e135b18c161053cb0d020ae0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 15/62] fix: accept an explicit plus sign on integers and
 doubles

---
 kio/resp/parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 5780a68..f7893cf 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -45,6 +45,13 @@ namespace kio::resp
         return std::nullopt;
     }
 
+    // RESP3 numbers may carry an explicit plus sign, which std::from_chars does not accept
+    static std::string_view skip_plus(const std::string_view s)
+    {
+        if (s.size() > 1 && s[0] == '+' && s[1] != '-') return s.substr(1);
+        return s;
+    }
+
     static std::optional<double> parse_double(std::string_view s)
     {
         if (s.empty()) return std::nullopt;
@@ -52,6 +59,7 @@ namespace kio::resp
         if (s == "inf" || s == "+inf") return std::numeric_limits<double>::infinity();
         if (s == "-inf") return -std::numeric_limits<double>::infinity();
         if (s == "nan") return std::numeric_limits<double>::quiet_NaN();
+        s = skip_plus(s);
 
         double val;
         auto [ptr, ec] = std::from_chars(s.data(), s.data() + s.size(), val);
@@ -152,7 +160,7 @@ namespace kio::resp
             case FrameType::Integer:
             {
                 // Validation: ensure it is a valid 64-bit integer
-                if (!parse_int({data.data() + 1, *pos - 1}))
+                if (!parse_int(skip_plus({data.data() + 1, *pos - 1})))
                 {
                     return std::unexpected(ParseError::Atoi);
                 }
-- 
2.43.0


From 2bd2ac002602a659f21e98401138fd09b5e7d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 16/62] fix: build each metric family once and keep references
 to it valid

---
 kio/metrics/model.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kio/metrics/model.h b/kio/metrics/model.h
index a6fc510..3381d66 100644
--- a/kio/metrics/model.h
+++ b/kio/metrics/model.h
@@ -4,6 +4,8 @@
 
 #ifndef KIO_MODEL_H
 #define KIO_MODEL_H
+#include <algorithm>
+#include <deque>
 #include <map>
 #include <string>
 #include <vector>
@@ -65,22 +67,27 @@ namespace kio
          * @param help The help string.
          * @param type The metric type (Counter or Gauge).
          * @param max_samples The maximum number of samples for a metric
-         * @return A reference to the new family, to which samples can be added.
+         * @return A reference to the family, to which samples can be added.
          */
         MetricFamily& BuildFamily(std::string name, std::string help, const MetricType type, const size_t max_samples = kMetricsMaxSamples)
         {
+            if (const auto it = std::ranges::find(families_, name, &MetricFamily::name); it != families_.end())
+            {
+                return *it;
+            }
             families_.emplace_back(MetricFamily{max_samples, std::move(name), std::move(help), type, {}});
             return families_.back();
         }
 
         [[nodiscard]]
-        const std::vector<MetricFamily>& GetFamilies() const
+        const std::deque<MetricFamily>& GetFamilies() const
         {
             return families_;
         }
 
     private:
-        std::vector<MetricFamily> families_;
+        // a deque: collectors keep references to the families they build
+        std::deque<MetricFamily> families_;
     };
 
 }  // namespace kio
-- 
2.43.0


From ac18331d4de292d867aaaf1c58ac4f3416841df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 17/62] fix: expose metric values without rounding them to six
 digits

---
 kio/metrics/serializer.cpp |  2 +-
 kio/metrics/utils.h        | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index ca5e09b..0f6967a 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -32,7 +32,7 @@ namespace kio
                     }
                     ss << "}";
                 }
-                ss << " " << sample.value << "\n";
+                ss << " " << FormatMetricValue(sample.value) << "\n";
             }
             // Extra newline between families
             ss << "\n";
diff --git a/kio/metrics/utils.h b/kio/metrics/utils.h
index d67ed29..7a0a68b 100644
--- a/kio/metrics/utils.h
+++ b/kio/metrics/utils.h
@@ -4,6 +4,9 @@
 
 #ifndef KIO_UTILS_H
 #define KIO_UTILS_H
+#include <cmath>
+#include <format>
+
 #include "model.h"
 
 namespace kio
@@ -20,6 +23,14 @@ namespace kio
         return "untyped";
     }
 
+    // Shortest text that reads back as exactly this value
+    inline std::string FormatMetricValue(const double v)
+    {
+        if (std::isnan(v)) return "NaN";
+        if (std::isinf(v)) return v > 0 ? "+Inf" : "-Inf";
+        return std::format("{}", v);
+    }
+
     inline std::string SanitizeLabelValue(const std::string& v)
     {
         bool needs_escape = false;
-- 
2.43.0


From d67d1c1ad44c9ac0780502086f32f44940c4e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 18/62] fix: escape newlines and backslashes in metric help
 text

---
 kio/metrics/serializer.cpp |  2 +-
 kio/metrics/utils.h        | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index 0f6967a..d5305a5 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -14,7 +14,7 @@ namespace kio
         std::ostringstream ss;
         for (const auto& family: snapshot.GetFamilies())
         {
-            ss << "# HELP " << family.name << " " << family.help << "\n";
+            ss << "# HELP " << family.name << " " << EscapeHelp(family.help) << "\n";
             ss << "# TYPE " << family.name << " " << ToString(family.type) << "\n";
 
             for (const auto& sample: family.samples)
diff --git a/kio/metrics/utils.h b/kio/metrics/utils.h
index 7a0a68b..4d517e8 100644
--- a/kio/metrics/utils.h
+++ b/kio/metrics/utils.h
@@ -67,6 +67,19 @@ namespace kio
         return out;
     }
 
+    // HELP text: only backslash and newline are escaped
+    inline std::string EscapeHelp(const std::string& v)
+    {
+        std::string out;
+        for (const char c: v)
+        {
+            if (c == '\\') out += "\\\\";
+            else if (c == '\n') out += "\\n";
+            else out += c;
+        }
+        return out;
+    }
+
     inline std::string SanitizeLabelKey(const std::string& key)
     {
         std::string out;
-- 
2.43.0


From bdb20874caf0aaadd3368be8b01d7f7b9b0bce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 19/62] fix: do not hold the registry lock while collectors
 wait for their workers

---
 kio/metrics/registry.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/kio/metrics/registry.h b/kio/metrics/registry.h
index 65d078a..db46ddd 100644
--- a/kio/metrics/registry.h
+++ b/kio/metrics/registry.h
@@ -46,13 +46,18 @@ namespace kio
         {
             MetricSnapshot snapshot;
 
+            // Collecting may wait for another thread (a worker), which may itself be registering a
+            // collector or scraping: do not hold the lock meanwhile.
+            std::vector<std::shared_ptr<IMetricsCollector>> collectors;
             {
                 std::lock_guard lock(mutex_);
-                // Tell every collector to share its metrics
-                for (const auto& collector: collectors_)
-                {
-                    collector->Collect(snapshot);
-                }
+                collectors = collectors_;
+            }
+
+            // Tell every collector to share its metrics
+            for (const auto& collector: collectors)
+            {
+                collector->Collect(snapshot);
             }
 
             // 3. Serialize it using our new serializer
-- 
2.43.0


From 76a6d99faa5e2ed7e5376c2a79ef1e9940688ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 20/62] fix: let a metrics server that was never started be
 stopped

---
 kio/metrics/server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index 5af7d8b..336c109 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -111,10 +111,10 @@ namespace kio
 
         ALOG_INFO("Stopping MetricsServer...");
 
-        // Stop worker
+        // Stop worker. A loop that was never started never reports its end.
         if (worker_->request_stop())
         {
-            worker_->wait_shutdown();
+            if (ev_thread_.joinable()) worker_->wait_shutdown();
         }
         else
         {
-- 
2.43.0


From efa41a47ef3e7da4b4b38e8d9f3b93e7e61c10ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 21/62] fix: tell accept how much room there is for the peer's
 address

---
 kio/core/worker.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index 60183b6..48355c9 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -271,7 +271,12 @@ namespace kio::io
         // Io methods
         //=========================================================
         Task<Result<int>> async_accept(int server_fd, sockaddr* addr, socklen_t* addrlen);
-        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr) { return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen); }
+        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr)
+        {
+            // the kernel fills in no more than the room it is told about
+            addr.addrlen = sizeof(addr.addr);
+            return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen);
+        }
         /**
          * @brief Asynchronously reads data from a streaming file descriptor (e.g., socket, pipe).
          *
-- 
2.43.0


From 50b4990c665aab86b573c63602be0e32cbdacba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 22/62] fix: let every caller of IOPool::stop wait for the pool
 to stop

---
 kio/core/worker_pool.cpp | 3 ++-
 kio/core/worker_pool.h   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker_pool.cpp b/kio/core/worker_pool.cpp
index 1fcac47..93eb498 100644
--- a/kio/core/worker_pool.cpp
+++ b/kio/core/worker_pool.cpp
@@ -52,7 +52,8 @@ namespace kio::io
 
     void IOPool::stop()
     {
-        // stop() is idempotent
+        // stop() is idempotent, and whoever calls it while it is being done waits for it
+        const std::scoped_lock lock(stop_mutex_);
         if (stopped_.exchange(true))
         {
             ALOG_DEBUG("IOPool::stop() called but pool is already stopped");
diff --git a/kio/core/worker_pool.h b/kio/core/worker_pool.h
index e1d0ebe..28cdaed 100644
--- a/kio/core/worker_pool.h
+++ b/kio/core/worker_pool.h
@@ -5,6 +5,7 @@
 #ifndef KIO_IO_WORKER_POOL_H
 #define KIO_IO_WORKER_POOL_H
 #include <memory>
+#include <mutex>
 #include <vector>
 
 #include "coro.h"
@@ -29,6 +30,7 @@ namespace kio::io
         std::vector<std::unique_ptr<Worker>> workers_;
         std::vector<std::jthread> worker_threads_;
         std::atomic<bool> stopped_{false};
+        std::mutex stop_mutex_;
 
     public:
         /**
-- 
2.43.0


From 60580ff0134d121e203661bc778e45c318f47eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 23/62] fix: fail to construct an IOPool whose workers cannot
 all start

---
 kio/core/worker.cpp      |  1 +
 kio/core/worker.h        |  8 +++++++-
 kio/core/worker_pool.cpp | 23 +++++++++++++++++++++--
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 8a429d5..02c5e61 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -227,6 +227,7 @@ namespace kio::io
         catch (const std::exception &e)
         {
             ALOG_ERROR("Worker {} failed during run(): {}", id_, e.what());
+            failed_.store(true, std::memory_order_release);
             // ensure latches are released so the pool doesn't wait forever
             signal_init_complete();
             signal_shutdown_complete();
diff --git a/kio/core/worker.h b/kio/core/worker.h
index 48355c9..1112977 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -162,6 +162,8 @@ namespace kio::io
         std::stop_token stop_token_;
         // to avoid a double shutdown
         std::atomic<bool> stopped_{false};
+        // the loop could not be started or ended with an error
+        std::atomic<bool> failed_{false};
         WorkerStats stats_{};
 
         std::function<void(Worker&)> worker_init_callback_;
@@ -241,7 +243,11 @@ namespace kio::io
          * @brief Tells whether this worker is running
          * @return a bool stating the state of the worker
          */
-        [[nodiscard]] bool is_running() const noexcept { return stopped_.load(std::memory_order_acquire) == false; }
+        [[nodiscard]] bool is_running() const noexcept { return stopped_.load(std::memory_order_acquire) == false && !has_failed(); }
+        /**
+         * @brief Tells whether this worker's loop could not be started or ended with an error
+         */
+        [[nodiscard]] bool has_failed() const noexcept { return failed_.load(std::memory_order_acquire); }
 
         //
         // CTOR/DTOR
diff --git a/kio/core/worker_pool.cpp b/kio/core/worker_pool.cpp
index 93eb498..3b0c9d9 100644
--- a/kio/core/worker_pool.cpp
+++ b/kio/core/worker_pool.cpp
@@ -23,9 +23,18 @@ namespace kio::io
         }
 
         // Start threads after all workers are created
-        for (const auto &worker: workers_)
+        try
+        {
+            for (const auto &worker: workers_)
+            {
+                worker_threads_.emplace_back([&w = *worker] { w.loop_forever(); });
+            }
+        }
+        catch (...)
         {
-            worker_threads_.emplace_back([&w = *worker] { w.loop_forever(); });
+            // the threads that did start would be waited for forever
+            for (const auto &worker: workers_) (void) worker->request_stop();
+            throw;
         }
 
         // Wait for all workers to be fully initialized
@@ -34,6 +43,16 @@ namespace kio::io
             worker->wait_ready();
         }
 
+        // A pool with a dead worker would never run what is sent to it
+        for (const auto &worker: workers_)
+        {
+            if (worker->has_failed())
+            {
+                stop();
+                throw std::runtime_error("IOPool: a worker failed to start");
+            }
+        }
+
         ALOG_INFO("IOPool started with {} workers", num_workers);
     }
 
-- 
2.43.0


From 3a1730ae7b239d74985be893a5511b18c280a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 24/62] fix: serve a file from one worker however its path is
 spelled

---
 kio/fs/fs.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/kio/fs/fs.cpp b/kio/fs/fs.cpp
index 4feb4b2..9120059 100644
--- a/kio/fs/fs.cpp
+++ b/kio/fs/fs.cpp
@@ -9,24 +9,30 @@
 
 namespace kio
 {
-    // always return an absolute path for hashing
-    static std::string absolute_path(const std::string_view path)
+    // The same absolute path for every spelling of a file's name, whether or not the file exists yet
+    static std::string absolute_path(const std::filesystem::path &path)
     {
-        try
-        {
-            return std::filesystem::canonical(path).string();
-        }
-        catch (const std::filesystem::filesystem_error &e)
+        std::error_code ec;
+        auto name = std::filesystem::absolute(path, ec);
+        if (ec) return path.string();
+
+        // a dangling link stands for the file that opening it creates
+        for (int hops = 0; hops < 40 && std::filesystem::is_symlink(name, ec) && !std::filesystem::exists(name, ec); ++hops)
         {
-            return std::filesystem::absolute(path).string();
+            const auto target = std::filesystem::read_symlink(name, ec);
+            if (ec) break;
+            name = name.parent_path() / target;
         }
+
+        const auto canonical = std::filesystem::weakly_canonical(name, ec);
+        return ec ? name.lexically_normal().string() : canonical.string();
     }
 
     FileManager::FileManager(const size_t io_worker_count, const io::WorkerConfig &config) : pool_(io_worker_count, config) { ALOG_INFO("started file manager with {} workers", io_worker_count); }
 
     Task<Result<File> > FileManager::async_open(std::filesystem::path path, const int flags, const mode_t mode)
     {
-        auto worker_id = pool_.get_worker_id_by_key(absolute_path(path.string()));
+        auto worker_id = pool_.get_worker_id_by_key(absolute_path(path));
         auto *worker = pool_.get_worker(worker_id);
         if (!worker)
         {
-- 
2.43.0


From e7f4a24ece9e307299ae63ca2b622e280fcbdcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 25/62] fix: keep a file on its own pool when it is
 move-assigned

---
 kio/fs/fs.cpp | 4 ++--
 kio/fs/fs.h   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kio/fs/fs.cpp b/kio/fs/fs.cpp
index 9120059..18ac6aa 100644
--- a/kio/fs/fs.cpp
+++ b/kio/fs/fs.cpp
@@ -50,7 +50,7 @@ namespace kio
 
     Task<Result<size_t> > File::async_read(std::span<char> buf, const uint64_t offset) const
     {
-        auto *worker = pool_.get_worker(worker_id_);
+        auto *worker = pool_->get_worker(worker_id_);
         if (!worker)
         {
             co_return std::unexpected(Error::from_errno(EINVAL));
@@ -67,7 +67,7 @@ namespace kio
     // NOSONAR: buffer lifetime is controlled by caller, safe across suspend
     Task<Result<size_t> > File::async_write(std::span<const char> buf, const uint64_t offset) const
     {
-        auto *worker = pool_.get_worker(worker_id_);
+        auto *worker = pool_->get_worker(worker_id_);
         if (!worker)
         {
             co_return std::unexpected(Error::from_errno(EINVAL));
diff --git a/kio/fs/fs.h b/kio/fs/fs.h
index 0180d15..95ee8dc 100644
--- a/kio/fs/fs.h
+++ b/kio/fs/fs.h
@@ -15,11 +15,11 @@ namespace kio
     class File
     {
         int fd_{-1};
-        io::IOPool &pool_;
+        io::IOPool *pool_;
         size_t worker_id_{0};
 
     public:
-        File(const int fd, io::IOPool &pool, size_t worker_id) : fd_(fd), pool_(pool), worker_id_(worker_id) { assert(fd_ >= 0); }
+        File(const int fd, io::IOPool &pool, size_t worker_id) : fd_(fd), pool_(&pool), worker_id_(worker_id) { assert(fd_ >= 0); }
 
         // File is not copyable
         File(const File &) = delete;
@@ -40,7 +40,7 @@ namespace kio
             {
                 if (fd_ != -1) ::close(fd_);  // Close existing fd first
                 fd_ = other.fd_;
-                // pool_ reference stays bound to the same pool (can't be rebound)
+                pool_ = other.pool_;
                 worker_id_ = other.worker_id_;
                 other.fd_ = -1;
             }
-- 
2.43.0


From cf7ea16ae5bb2e63d83051bb9a59ddc5ff4f86bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 26/62] fix: do not report a TLS handshake without kernel TLS
 as a success when asked again

---
 kio/tls/stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index ae280c9..3e3b756 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -86,7 +86,8 @@ namespace kio::tls
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
     {
-        if (handshake_done_) co_return {};
+        // Only a handshake that left kernel TLS active is a success, however often it is asked for
+        if (handshake_done_) co_return enable_ktls();
 
         if (role_ == TlsRole::Client && !hostname.empty())
         {
-- 
2.43.0


From e50bf5c3a07466ec2e96ed15c35c24fe8a05bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 27/62] fix: fail a TLS handshake that the worker's stop cuts
 short

---
 kio/tls/stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 3e3b756..76f603d 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -81,7 +81,8 @@ namespace kio::tls
             }
         }
 
-        co_return {};
+        // The worker stops before the handshake is done
+        co_return std::unexpected(Error::from_errno(ECANCELED));
     }
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
-- 
2.43.0


From 7d5fe2fd23996a8aeccc14a5ed771f3010210a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 28/62] fix: refuse I/O on a TLS stream that is not secured

---
 kio/tls/stream.cpp | 20 ++++++++++++++++++++
 kio/tls/stream.h   |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 76f603d..a56cc36 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -15,6 +15,13 @@ namespace kio::tls
         co_return result;
     }
 
+    // Helper coroutine: the answer to I/O on a stream that has no secured connection.
+    template<typename T>
+    static Task<Result<T>> not_connected_task()
+    {
+        co_return std::unexpected(Error{ErrorCategory::Tls, kTlsNotConnected});
+    }
+
     TlsStream::TlsStream(io::Worker& worker, net::Socket socket, TlsContext& context, const TlsRole role) : worker_(worker), ctx_(context), socket_(std::move(socket)), role_(role)
     {
         ssl_ = SSL_new(ctx_.get());
@@ -87,6 +94,8 @@ namespace kio::tls
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
     {
+        if (!ssl_) co_return std::unexpected(Error{ErrorCategory::Tls, kTlsNotConnected});
+
         // Only a handshake that left kernel TLS active is a success, however often it is asked for
         if (handshake_done_) co_return enable_ktls();
 
@@ -144,6 +153,9 @@ namespace kio::tls
 
     Task<Result<int>> TlsStream::async_read(std::span<char> buf)
     {
+        // Never touch application data outside of an active kernel TLS session
+        if (!ktls_active_) return not_connected_task<int>();
+
         // Drain OpenSSL buffer if needed (rare path)
         if (ssl_ && SSL_pending(ssl_) > 0)
         {
@@ -162,14 +174,22 @@ namespace kio::tls
 
     Task<Result<int>> TlsStream::async_write(std::span<const char> buf)
     {
+        if (!ktls_active_) return not_connected_task<int>();
         return worker_.async_write(socket_.get(), buf);
     }
 
     Task<Result<void>> TlsStream::async_write_exact(std::span<const char> buf)
     {
+        if (!ktls_active_) return not_connected_task<void>();
         return worker_.async_write_exact(socket_.get(), buf);
     }
 
+    Task<Result<void>> TlsStream::async_sendfile(const int in_fd, const off_t offset, const size_t count)
+    {
+        if (!ktls_active_) return not_connected_task<void>();
+        return worker_.async_sendfile(socket_.get(), in_fd, offset, count);
+    }
+
     Task<Result<void>> TlsStream::do_shutdown_step()
     {
         const auto st = worker_.get_stop_token();
diff --git a/kio/tls/stream.h b/kio/tls/stream.h
index 4f2b24c..b9eabca 100644
--- a/kio/tls/stream.h
+++ b/kio/tls/stream.h
@@ -117,7 +117,7 @@ namespace kio::tls
          * @param count Number of bytes to send
          * @return void on success, error on failure
          */
-        Task<Result<void>> async_sendfile(const int in_fd, const off_t offset, const size_t count) { return worker_.async_sendfile(socket_.get(), in_fd, offset, count); }
+        Task<Result<void>> async_sendfile(const int in_fd, const off_t offset, const size_t count);
 
         /**
          * @brief Perform clean TLS shutdown (sends close_notify)
-- 
2.43.0


From 37e612ecc7a038d9b0cfbb45bb7d379f090826cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 29/62] fix: keep one TLS stream's errors from failing another
 one on the same worker

---
 kio/tls/stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index a56cc36..a12c192 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -54,6 +54,7 @@ namespace kio::tls
 
         while (!st.stop_requested())
         {
+            ERR_clear_error();  // SSL_get_error() looks at the whole queue of this thread
             const int ret = (role_ == TlsRole::Client) ? SSL_connect(ssl_) : SSL_accept(ssl_);
             if (ret == 1) co_return {};
 
@@ -198,6 +199,7 @@ namespace kio::tls
 
         while (!st.stop_requested() && iterations++ < kMaxShutdownIterations)
         {
+            ERR_clear_error();  // SSL_get_error() looks at the whole queue of this thread
             const int ret = SSL_shutdown(ssl_);
 
             if (ret == 1)
-- 
2.43.0


From 5efa16eb7b87bdf116a23a9f6d203b7a48655eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 30/62] fix: let a moved TLS stream keep its peer's address

---
 kio/tls/stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index a12c192..9fac246 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -42,6 +42,7 @@ namespace kio::tls
 
     TlsStream::TlsStream(TlsStream&& other) noexcept :
         worker_(other.worker_), ctx_(other.ctx_), socket_(std::move(other.socket_)), ssl_(std::exchange(other.ssl_, nullptr)), role_(other.role_), server_name_(std::exchange(other.server_name_, "")),
+        peer_addr_(std::move(other.peer_addr_)),
         handshake_done_(other.handshake_done_), ktls_active_(other.ktls_active_)
     {
         other.handshake_done_ = false;
-- 
2.43.0


From e67fe32941ef7faf9e77a8455f315e0ff7f9c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 31/62] fix: do not shut a closed TLS stream down on a
 descriptor it no longer owns

---
 kio/tls/stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 9fac246..78d251d 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -242,7 +242,7 @@ namespace kio::tls
 
     Task<Result<void>> TlsStream::async_shutdown()
     {
-        if (!ssl_ || !handshake_done_) co_return {};
+        if (!ssl_ || !handshake_done_ || !socket_.is_valid()) co_return {};
         ALOG_DEBUG("TLS shutdown initiated for fd={}", socket_.get());
         co_return co_await do_shutdown_step();
     }
-- 
2.43.0


From 7ea9f39d6c4979f80dc614f86d0a9f3453a42c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 32/62] fix: do not block the worker in the TLS handshake of an
 accepted connection

---
 kio/tls/stream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 78d251d..bb56d45 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -3,6 +3,8 @@
 //
 #include "stream.h"
 
+#include <fcntl.h>
+
 #include "context.h"
 
 namespace kio::tls
@@ -29,6 +31,11 @@ namespace kio::tls
         {
             throw std::runtime_error("Failed to create SSL object: " + detail::get_openssl_error());
         }
+        // OpenSSL reads and writes the socket itself during handshake and shutdown: it must not block the worker
+        if (const int flags = ::fcntl(socket_.get(), F_GETFL); flags >= 0)
+        {
+            ::fcntl(socket_.get(), F_SETFL, flags | O_NONBLOCK);
+        }
         if (SSL_set_fd(ssl_, socket_.get()) != 1)
         {
             SSL_free(ssl_);
-- 
2.43.0


From 30b22a5790f1d84fb1bcb5d662d84be05e4eb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 33/62] fix: do not connect over TLS when the server's name
 cannot be checked

---
 kio/tls/stream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index bb56d45..b7cb46c 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -111,8 +111,11 @@ namespace kio::tls
         if (role_ == TlsRole::Client && !hostname.empty())
         {
             server_name_ = std::string(hostname);
-            SSL_set_tlsext_host_name(ssl_, server_name_.c_str());
-            SSL_set1_host(ssl_, server_name_.c_str());
+            if (SSL_set_tlsext_host_name(ssl_, server_name_.c_str()) != 1 || SSL_set1_host(ssl_, server_name_.c_str()) != 1)
+            {
+                ALOG_ERROR("Failed to set the TLS host name: {}", detail::get_openssl_error());
+                co_return std::unexpected(Error{ErrorCategory::Tls, kTlsHandshakeFailed});
+            }
         }
 
         ALOG_DEBUG("Starting TLS handshake for fd={}", socket_.get());
-- 
2.43.0


From aa048ed2ac4988b65e3243eb7777e52fad63c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 34/62] fix: listen for TLS connections on IPv6 addresses

---
 kio/tls/listener.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kio/tls/listener.cpp b/kio/tls/listener.cpp
index d14e5db..e253582 100644
--- a/kio/tls/listener.cpp
+++ b/kio/tls/listener.cpp
@@ -15,7 +15,13 @@ namespace kio::tls
 {
     Result<TlsListener> TlsListener::bind(Worker& worker, const ListenerConfig& config, TlsContext& ctx)
     {
-        auto fd_res = create_tcp_fd(AF_INET);
+        auto addr_res = resolve_address(config.bind_address, config.port);
+        if (!addr_res.has_value())
+        {
+            return std::unexpected(addr_res.error());
+        }
+
+        auto fd_res = create_tcp_fd(addr_res.value().family);
         if (!fd_res.has_value())
         {
             return std::unexpected(fd_res.error());
@@ -39,12 +45,6 @@ namespace kio::tls
             ::setsockopt(socket.get(), SOL_SOCKET, SO_REUSEPORT, &opt, sizeof(opt));
         }
 
-        auto addr_res = resolve_address(config.bind_address, config.port);
-        if (!addr_res.has_value())
-        {
-            return std::unexpected(addr_res.error());
-        }
-
         // now bind and listen
         if (auto res = listen_on_sock(socket.get(), addr_res.value(), config.backlog); !res.has_value())
         {
-- 
2.43.0


From 508993a90cc44128b5624043c20fa63a37d3899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 35/62] fix: report ALPN protocols that cannot be offered

---
 kio/tls/context.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/kio/tls/context.cpp b/kio/tls/context.cpp
index 376052a..cbc25eb 100644
--- a/kio/tls/context.cpp
+++ b/kio/tls/context.cpp
@@ -179,10 +179,22 @@ namespace kio::tls
             std::vector<unsigned char> protos;
             for (const auto& p: config.alpn_protocols)
             {
+                if (p.empty() || p.length() > 255)
+                {
+                    ALOG_ERROR("Invalid ALPN protocol of length {}", p.length());
+                    SSL_CTX_free(ctx);
+                    return std::unexpected(Error{ErrorCategory::Tls, kTlsContextCreationFailed});
+                }
                 protos.push_back(static_cast<unsigned char>(p.length()));
                 protos.insert(protos.end(), p.begin(), p.end());
             }
-            SSL_CTX_set_alpn_protos(ctx, protos.data(), protos.size());
+            // 0 means success here
+            if (SSL_CTX_set_alpn_protos(ctx, protos.data(), protos.size()) != 0)
+            {
+                ALOG_ERROR("Failed to set ALPN protocols: {}", detail::get_openssl_error());
+                SSL_CTX_free(ctx);
+                return std::unexpected(Error{ErrorCategory::Tls, kTlsContextCreationFailed});
+            }
         }
 
         return TlsContext{ctx, role == TlsRole::Server};
-- 
2.43.0


From 3335aafe3e567abaccab8bcfc822435aa2c34e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 36/62] fix: wait for room when sendfile meets a non-blocking
 socket that is full

---
 kio/core/worker.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 02c5e61..da264ef 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -3,6 +3,8 @@
 //
 #include "worker.h"
 
+#include <poll.h>
+
 #include <fcntl.h>
 #include <chrono>
 #include <liburing.h>
@@ -659,6 +661,12 @@ Task<Result<void>> Worker::async_sendfile(int out_fd, int in_fd, off_t offset, s
                                                         out_fd, -1,
                                                         pipe_remaining);
 
+            if (res_out == -EAGAIN)
+            {
+                // A non-blocking destination has no room at the moment
+                KIO_TRY(co_await async_poll(out_fd, POLLOUT));
+                continue;
+            }
             if (res_out < 0) co_return std::unexpected(Error::from_errno(-res_out));
             if (res_out == 0) co_return std::unexpected(Error{ErrorCategory::Network, EPIPE});
 
-- 
2.43.0


From 04f243562c9bb02ca77702236729f885d4ede436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 37/62] fix: do not let a corrupt entry size overflow the
 bounds check

---
 bitcask/src/entry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcask/src/entry.cpp b/bitcask/src/entry.cpp
index 5f86e63..477ecf7 100644
--- a/bitcask/src/entry.cpp
+++ b/bitcask/src/entry.cpp
@@ -67,7 +67,8 @@ namespace bitcask
         const auto crc = read_le<uint32_t>(buffer.data());
         const auto size = read_le<uint64_t>(buffer.data() + 4);
 
-        if (buffer.size() < kEntryFixedHeaderSize + size)
+        // size comes from the disk: do not let it overflow
+        if (size > buffer.size() - kEntryFixedHeaderSize)
         {
             return std::unexpected(Error{ErrorCategory::Serialization, kIoNeedMoreData});
         }
-- 
2.43.0


From ef9291c79ae3e239c5b21c70a2bfe49a90b7a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 38/62] fix: do not repeat file ids after 65536 files in one
 second

---
 bitcask/include/file_id.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcask/include/file_id.h b/bitcask/include/file_id.h
index 71384b5..de82260 100644
--- a/bitcask/include/file_id.h
+++ b/bitcask/include/file_id.h
@@ -83,7 +83,9 @@ namespace bitcask
                 if (sequence_ == 0xFFFF)
                 {
                     // This is a rare edge case: generating >65k files in 1 second.
+                    // Borrow from the next second: ids must never repeat.
                     ALOG_WARN("FileIdGenerator: sequence overflow for partition {}", partition_id_);
+                    now = ++last_timestamp_;
                     sequence_ = 0;
                 }
                 else
-- 
2.43.0


From 673a9f340182ebd28ca8e94e88aabf8b1c6552f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 39/62] fix: never reuse the id of a data file that exists when
 the store is opened

---
 bitcask/include/file_id.h | 16 ++++++++++++++++
 bitcask/src/partition.cpp |  1 +
 2 files changed, 17 insertions(+)

diff --git a/bitcask/include/file_id.h b/bitcask/include/file_id.h
index de82260..c59fb8c 100644
--- a/bitcask/include/file_id.h
+++ b/bitcask/include/file_id.h
@@ -97,6 +97,22 @@ namespace bitcask
             return FileID{partition_id_, now, sequence_}.encode();
         }
 
+        /**
+         * @brief Take an existing file ID into account: the IDs generated from now on are larger.
+         * Called for every file found on recovery (the clock may have moved backwards since, or not moved at all).
+         */
+        void observe(const uint64_t file_id)
+        {
+            const auto id = FileID::decode(file_id);
+            if (id.partition != partition_id_) return;
+
+            if (id.timestamp_sec > last_timestamp_ || (id.timestamp_sec == last_timestamp_ && id.sequence > sequence_))
+            {
+                last_timestamp_ = id.timestamp_sec;
+                sequence_ = id.sequence;
+            }
+        }
+
         [[nodiscard]] uint32_t current_timestamp() const { return last_timestamp_; }
 
         [[nodiscard]] uint16_t partition_id() const { return partition_id_; }
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 013ab3a..882da3b 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -470,6 +470,7 @@ Task<Result<void>> Partition::recover()
     ALOG_INFO("Found {} data files", files.size());
     for (auto file_id: files)
     {
+        file_id_gen_.observe(file_id);
         stats_.data_files[file_id].total_bytes = std::filesystem::file_size(get_data_file_path(file_id));
     }
 
-- 
2.43.0


From 1bf8bdcdf5b362bf220d3766b5edf735e4e66cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 40/62] fix: check the MANIFEST before creating anything, and
 create it atomically

---
 bitcask/include/bitcask.h |  8 +++++-
 bitcask/src/bitcask.cpp   | 51 +++++++++++++++++++++++++++------------
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/bitcask/include/bitcask.h b/bitcask/include/bitcask.h
index 6e2a281..7c18f23 100644
--- a/bitcask/include/bitcask.h
+++ b/bitcask/include/bitcask.h
@@ -138,7 +138,13 @@ namespace bitcask
          * Creates: data/partition_0/, data/partition_1/, etc.
          */
         void ensure_directories() const;
-        void check_or_create_manifest() const;
+
+        /**
+         * @brief Verify the MANIFEST, if there is one
+         * @return whether there is one; throws if it does not match the configuration
+         */
+        [[nodiscard]] bool check_manifest() const;
+        void create_manifest() const;
 
         // ====================================================================
         // ROUTING
diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index 8e268b7..0e6cdc1 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -1,5 +1,6 @@
 #include <bitcask/include/bitcask.h>
 #include <cstdlib>
+#include <fcntl.h>
 #include <filesystem>
 #include <fstream>
 #include <mutex>
@@ -22,10 +23,12 @@ Task<Result<std::unique_ptr<BitKV>>> BitKV::open(const BitcaskConfig& config, co
 
     try
     {
+        // refuse a store with another layout before anything is changed
+        const bool exists = db->check_manifest();
         // ensure dirs are created
         db->ensure_directories();
-        // ensure the manifest is valid (must happen after ensure_directories)
-        db->check_or_create_manifest();
+        // must happen after ensure_directories
+        if (!exists) db->create_manifest();
     }
     catch (const std::exception& e)
     {
@@ -82,7 +85,7 @@ void BitKV::ensure_directories() const
     }
 }
 
-void BitKV::check_or_create_manifest() const
+bool BitKV::check_manifest() const
 {
     if (std::filesystem::path manifest_path = db_config_.directory / kManifestFileName; std::filesystem::exists(manifest_path))
     {
@@ -119,21 +122,37 @@ void BitKV::check_or_create_manifest() const
     }
     else
     {
-        // Create a new Manifest
-        ALOG_INFO("Creating new MANIFEST with partition_count={}", partition_count_);
-        Manifest manifest;
-        manifest.partition_count = static_cast<uint32_t>(partition_count_);
-        auto data = struct_pack::serialize(manifest);
+        return false;
+    }
+    return true;
+}
 
-        std::ofstream file(manifest_path, std::ios::binary);
-        file.write(data.data(), static_cast<int>(data.size()));
-        file.close();
+void BitKV::create_manifest() const
+{
+    // Create a new Manifest
+    ALOG_INFO("Creating new MANIFEST with partition_count={}", partition_count_);
+    Manifest manifest;
+    manifest.partition_count = static_cast<uint32_t>(partition_count_);
+    const auto data = struct_pack::serialize(manifest);
+
+    // A crash must leave either no MANIFEST or a complete one: write it aside, then rename
+    const auto manifest_path = db_config_.directory / kManifestFileName;
+    const auto tmp_path = db_config_.directory / std::format("{}.tmp", kManifestFileName);
+    const FileHandle file(::open(tmp_path.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, db_config_.file_mode));
+
+    if (!file.is_valid() || ::write(file.get(), data.data(), data.size()) != static_cast<ssize_t>(data.size()) || ::fsync(file.get()) != 0)
+    {
+        ALOG_ERROR("Failed to write MANIFEST");
+        throw std::runtime_error("Failed to write MANIFEST");
+    }
 
-        if (!file.good())
-        {
-            ALOG_ERROR("Failed to write MANIFEST");
-            throw std::runtime_error("Failed to write MANIFEST");
-        }
+    std::filesystem::rename(tmp_path, manifest_path);
+
+    // make the rename durable
+    if (const FileHandle dir(::open(db_config_.directory.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC)); !dir.is_valid() || ::fsync(dir.get()) != 0)
+    {
+        ALOG_ERROR("Failed to sync the data directory");
+        throw std::runtime_error("Failed to sync the data directory");
     }
 }
 
-- 
2.43.0


From ae661e7b2db34a05de34b6464e66a39a2795483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 41/62] fix: keep cached descriptors open while they are in use

---
 bitcask/include/fd_cache.h  | 14 +++++++++++++-
 bitcask/include/partition.h |  2 +-
 bitcask/src/fd_cache.cpp    | 29 +++++++++++++++++++++--------
 bitcask/src/partition.cpp   |  9 +++++----
 4 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/bitcask/include/fd_cache.h b/bitcask/include/fd_cache.h
index 72e2c7a..df49ac2 100644
--- a/bitcask/include/fd_cache.h
+++ b/bitcask/include/fd_cache.h
@@ -4,7 +4,10 @@
 
 #ifndef KIO_FD_CACHE_H
 #define KIO_FD_CACHE_H
+#include <filesystem>
 #include <list>
+#include <memory>
+#include <unordered_map>
 
 #include "kio/core/worker.h"
 #include "file_handle.h"
@@ -24,8 +27,17 @@ namespace bitcask
     public:
         explicit FDCache(kio::io::Worker& worker, size_t max_files = 100) : worker_(worker), max_open_files_(max_files) {}
 
+        /// A shared descriptor: it stays open while someone holds it, even if the cache drops it meanwhile
+        using Handle = std::shared_ptr<FileHandle>;
+
+        /**
+         * @brief Get a handle for file_id, opening if not cached. Keep it for as long as the descriptor is in use.
+         */
+        kio::Task<kio::Result<Handle>> acquire(uint64_t file_id, const std::filesystem::path& path);
         /**
          * @brief Get FD for file_id, opening if not cached
+         *
+         * The FD belongs to the cache: it is only good until the caller suspends. Use acquire() otherwise.
          */
         kio::Task<kio::Result<int>> get_or_open(uint64_t file_id, const std::filesystem::path& path);
         /**
@@ -56,7 +68,7 @@ namespace bitcask
     private:
         struct CacheEntry
         {
-            FileHandle handle;
+            Handle handle;
             std::filesystem::path path;
             std::list<uint64_t>::iterator lru_iter;
         };
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 4e0a8f3..17fc2e8 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -44,7 +44,7 @@ namespace bitcask
         // Helper methods
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
         kio::Task<kio::Result<void>> rotate_active_file();
-        kio::Task<kio::Result<int>> find_fd(uint64_t file_id);
+        kio::Task<kio::Result<FDCache::Handle>> find_fd(uint64_t file_id);
 
         // Start the loop in the background if a compaction flag is set
         kio::DetachedTask compaction_loop();
diff --git a/bitcask/src/fd_cache.cpp b/bitcask/src/fd_cache.cpp
index 2040b43..a021ace 100644
--- a/bitcask/src/fd_cache.cpp
+++ b/bitcask/src/fd_cache.cpp
@@ -7,34 +7,47 @@
 namespace bitcask
 {
     kio::Task<kio::Result<int>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
+    {
+        const auto handle = KIO_TRY(co_await acquire(file_id, path));
+        co_return handle->get();
+    }
+
+    kio::Task<kio::Result<FDCache::Handle>> FDCache::acquire(uint64_t file_id, const std::filesystem::path& path)
     {
         // Cache hit
         if (const auto it = cache_.find(file_id); it != cache_.end())
         {
             stats_.hits++;
             touch(file_id);
-            co_return it->second.handle.get();
+            co_return it->second.handle;
         }
 
         // Cache miss
         stats_.misses++;
 
-        // Evict if at capacity
-        if (cache_.size() >= max_open_files_)
+        // Open file
+        auto handle = std::make_shared<FileHandle>(KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0)));
+
+        // Someone else may have opened it meanwhile
+        if (const auto it = cache_.find(file_id); it != cache_.end())
+        {
+            touch(file_id);
+            co_return it->second.handle;
+        }
+
+        // Evict if at capacity (only now: the cache may have filled up while the file was being opened)
+        while (cache_.size() >= max_open_files_ && !lru_list_.empty())
         {
             evict_oldest();
         }
 
-        // Open file
-        int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
-
         // Add to cache
         lru_list_.push_front(file_id);
-        cache_[file_id] = CacheEntry{FileHandle(fd), path, lru_list_.begin()};
+        cache_[file_id] = CacheEntry{handle, path, lru_list_.begin()};
 
         ALOG_DEBUG("FdCache: Opened file {} (cache size: {})", file_id, cache_.size());
 
-        co_return fd;
+        co_return handle;
     }
 
     void FDCache::remove(uint64_t file_id)
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 882da3b..468a2af 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -70,10 +70,11 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
     }
 
     const auto& loc = it->second;
-    const int fd = KIO_TRY(co_await find_fd(loc.file_id));
+    // keeps the descriptor open until we are done with it
+    const auto handle = KIO_TRY(co_await find_fd(loc.file_id));
 
     ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-    DataEntry entry = KIO_TRY(co_await async_read_entry(fd, loc.offset, loc.total_size));
+    DataEntry entry = KIO_TRY(co_await async_read_entry(handle->get(), loc.offset, loc.total_size));
 
     if (entry.is_tombstone())
     {
@@ -128,7 +129,7 @@ Task<Result<void>> Partition::del(const std::string& key)
 }
 
 
-Task<Result<int>> Partition::find_fd(const uint64_t file_id)
+Task<Result<FDCache::Handle>> Partition::find_fd(const uint64_t file_id)
 {
     // if file id is the active one, flush first
     if (file_id == active_file_->file_id())
@@ -137,7 +138,7 @@ Task<Result<int>> Partition::find_fd(const uint64_t file_id)
     }
 
     const auto path = get_data_file_path(file_id);
-    co_return co_await fd_cache_.get_or_open(file_id, path);
+    co_return co_await fd_cache_.acquire(file_id, path);
 }
 
 Task<Result<DataEntry>> Partition::async_read_entry(const int fd, const uint64_t offset, const uint32_t size) const
-- 
2.43.0


From a690b9d32d01a06b454f09ad3ef534262783da0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 42/62] fix: let a metrics server whose worker failed release
 its socket

---
 kio/core/worker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index 1112977..775b47d 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -243,7 +243,7 @@ namespace kio::io
          * @brief Tells whether this worker is running
          * @return a bool stating the state of the worker
          */
-        [[nodiscard]] bool is_running() const noexcept { return stopped_.load(std::memory_order_acquire) == false && !has_failed(); }
+        [[nodiscard]] bool is_running() const noexcept { return stopped_.load(std::memory_order_acquire) == false; }
         /**
          * @brief Tells whether this worker's loop could not be started or ended with an error
          */
-- 
2.43.0


From 468026142cfe7c13cf6ec505c37bbeacaae3e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 43/62] fix: keep the writes to a partition from interleaving

---
 bitcask/include/async_mutex.h | 86 +++++++++++++++++++++++++++++++++++
 bitcask/include/partition.h   |  8 ++++
 bitcask/src/partition.cpp     | 58 ++++++++++++++---------
 3 files changed, 130 insertions(+), 22 deletions(-)
 create mode 100644 bitcask/include/async_mutex.h

diff --git a/bitcask/include/async_mutex.h b/bitcask/include/async_mutex.h
new file mode 100644
index 0000000..da5420e
--- /dev/null
+++ b/bitcask/include/async_mutex.h
@@ -0,0 +1,86 @@
+#ifndef KIO_BITCASK_ASYNC_MUTEX_H
+#define KIO_BITCASK_ASYNC_MUTEX_H
+
+#include <coroutine>
+#include <deque>
+#include <memory>
+#include <utility>
+
+namespace bitcask
+{
+    /**
+     * @brief FIFO mutex for the coroutines of one worker.
+     *
+     * A partition runs on a single thread, but its operations interleave at every co_await: this keeps
+     * the multi-step ones (write then index, rotate, seal, ...) from doing so. NOT thread-safe.
+     */
+    class AsyncMutex
+    {
+    public:
+        class Guard
+        {
+        public:
+            explicit Guard(AsyncMutex& mutex) : mutex_(&mutex) {}
+            Guard(Guard&& other) noexcept : mutex_(std::exchange(other.mutex_, nullptr)) {}
+            Guard(const Guard&) = delete;
+            Guard& operator=(const Guard&) = delete;
+            Guard& operator=(Guard&&) = delete;
+            ~Guard()
+            {
+                if (mutex_ != nullptr) mutex_->unlock();
+            }
+
+        private:
+            AsyncMutex* mutex_;
+        };
+
+        AsyncMutex() = default;
+        AsyncMutex(const AsyncMutex&) = delete;
+        AsyncMutex& operator=(const AsyncMutex&) = delete;
+
+        // co_await mutex.lock() gives a Guard that unlocks when it goes out of scope
+        [[nodiscard]] auto lock() noexcept
+        {
+            struct Awaiter
+            {
+                AsyncMutex& mutex;
+
+                bool await_ready() const noexcept { return mutex.state_->waiters.empty() && !std::exchange(mutex.state_->locked, true); }
+                void await_suspend(std::coroutine_handle<> h) { mutex.state_->waiters.push_back(h); }
+                // when resumed by unlock(), the mutex was handed over locked
+                [[nodiscard]] Guard await_resume() const noexcept { return Guard(mutex); }
+            };
+
+            return Awaiter{*this};
+        }
+
+    private:
+        struct State
+        {
+            bool locked = false;
+            bool handing_over = false;
+            std::deque<std::coroutine_handle<>> waiters;
+        };
+        // Shared: a waiter may destroy the mutex when it is done
+        std::shared_ptr<State> state_ = std::make_shared<State>();
+
+        void unlock()
+        {
+            const auto state = state_;
+            state->locked = false;
+            // Not from within a waiter resumed below: the stack would grow with every one of them
+            if (std::exchange(state->handing_over, true)) return;
+
+            while (!state->locked && !state->waiters.empty())
+            {
+                const auto next = state->waiters.front();
+                state->waiters.pop_front();
+                state->locked = true;
+                next.resume();
+            }
+            state->handing_over = false;
+        }
+    };
+}  // namespace bitcask
+
+#endif  // KIO_BITCASK_ASYNC_MUTEX_H
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 17fc2e8..2c2a8e1 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -6,6 +6,7 @@
 #define KIO_BITCASK_PARTITION_H
 
 #include "kio/sync/baton.h"
+#include "async_mutex.h"
 #include "compactor.h"
 #include "data_file.h"
 #include "entry.h"
@@ -41,6 +42,13 @@ namespace bitcask
         compactor::CompactionLimits compaction_limits_{};
         std::atomic<bool> shutting_down_{false};
 
+        // Serializes what appends to, rotates or seals the active file: the steps of these operations
+        // suspend, and must not interleave with one another.
+        AsyncMutex write_lock_;
+
+        [[nodiscard]] bool is_open() const { return active_file_ != nullptr && !shutting_down_.load(); }
+        [[nodiscard]] static kio::Error closed_error() { return kio::Error::from_errno(EBADF); }
+
         // Helper methods
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
         kio::Task<kio::Result<void>> rotate_active_file();
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 468a2af..97eee4f 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -12,11 +12,15 @@ Partition::Partition(const BitcaskConfig& config, Worker& worker, const size_t p
 
 Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
+    // Only look at the partition from its worker
     co_await SwitchToWorker(worker_);
 
+    const auto lock = co_await write_lock_.lock();
+    if (!is_open())
+    {
+        co_return std::unexpected(closed_error());
+    }
+
     if (active_file_->should_rotate(config_.max_file_size))
     {
         KIO_TRY(co_await rotate_active_file());
@@ -56,10 +60,12 @@ Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
 
 Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string& key)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
+    // Only look at the partition from its worker
     co_await SwitchToWorker(worker_);
+    if (!is_open())
+    {
+        co_return std::unexpected(closed_error());
+    }
     stats_.gets_total++;
 
     const auto it = keydir_.find(key);
@@ -88,30 +94,23 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
 
 Task<Result<void>> Partition::del(const std::string& key)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
+    // Only look at the partition from its worker
     co_await SwitchToWorker(worker_);
 
+    const auto lock = co_await write_lock_.lock();
+    if (!is_open())
+    {
+        co_return std::unexpected(closed_error());
+    }
+
     stats_.deletes_total++;
 
-    const auto it = keydir_.find(key);
-    if (it == keydir_.end())
+    if (!keydir_.contains(key))
     {
         co_return {};
     }
 
-    // Update stats for old location
-    auto& old_stats = stats_.data_files[it->second.file_id];
-    old_stats.live_bytes -= it->second.total_size;
-    old_stats.live_entries--;
-
-    const uint64_t old_file_id = it->second.file_id;
-
-    // Remove from KeyDir first as it's our source of truth
-    keydir_.erase(it);
-
-    // Write tombstone
+    // Write the tombstone first: the key is only gone once this succeeded
     const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
     auto [_, size] = KIO_TRY(co_await active_file_->async_write(tombstone));
 
@@ -119,6 +118,17 @@ Task<Result<void>> Partition::del(const std::string& key)
     auto& active_stats = stats_.data_files[active_file_->file_id()];
     active_stats.total_bytes += size;
 
+    // Look the key up only now: compaction may have moved it meanwhile
+    const auto it = keydir_.find(key);
+    const uint64_t old_file_id = it->second.file_id;
+
+    // Update stats for old location
+    auto& old_stats = stats_.data_files[old_file_id];
+    old_stats.live_bytes -= it->second.total_size;
+    old_stats.live_entries--;
+
+    keydir_.erase(it);
+
     // Check if a file needs compaction
     if (should_compact_file(old_file_id))
     {
@@ -597,6 +607,8 @@ Task<Result<void>> Partition::async_close()
 {
     ALOG_INFO("Partition {} closing...", partition_id_);
 
+    co_await SwitchToWorker(worker_);
+
     // Signal shutdown to compaction loop
     shutting_down_.store(true);
 
@@ -605,6 +617,7 @@ Task<Result<void>> Partition::async_close()
     compaction_trigger_.notify();
 
     // Seal the active file if it exists and hasn't been sealed by rotation
+    const auto lock = co_await write_lock_.lock();
     KIO_TRY(co_await seal_active_file());
 
     // The worker is not owned by the partition. It should not close it.
@@ -658,6 +671,7 @@ Task<Result<void>> Partition::compact()
 Task<Result<void>> Partition::sync()
 {
     co_await SwitchToWorker(worker_);
+    const auto lock = co_await write_lock_.lock();
     if (active_file_)
     {
         KIO_TRY(co_await worker_.async_fsync(active_file_->handle().get()));
-- 
2.43.0


From 7ae9154e383f88a8952f0d0f3d123e19cba67428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 44/62] fix: let a read survive rotation, deletion and
 compaction of what it reads

---
 bitcask/src/partition.cpp | 51 ++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 97eee4f..22a2b43 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -68,27 +68,39 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
     }
     stats_.gets_total++;
 
-    const auto it = keydir_.find(key);
-    if (it == keydir_.end())
+    for (;;)
     {
-        stats_.gets_miss_total++;
-        co_return std::nullopt;
-    }
+        const auto it = keydir_.find(key);
+        if (it == keydir_.end())
+        {
+            stats_.gets_miss_total++;
+            co_return std::nullopt;
+        }
 
-    const auto& loc = it->second;
-    // keeps the descriptor open until we are done with it
-    const auto handle = KIO_TRY(co_await find_fd(loc.file_id));
+        // A copy: the keydir may change while we are suspended
+        const ValueLocation loc = it->second;
+        // keeps the descriptor open until we are done with it
+        const auto handle = co_await find_fd(loc.file_id);
 
-    ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-    DataEntry entry = KIO_TRY(co_await async_read_entry(handle->get(), loc.offset, loc.total_size));
+        if (!handle.has_value())
+        {
+            // Compaction may have moved the entry and removed the file while we were opening it
+            const auto now = keydir_.find(key);
+            if (now == keydir_.end() || now->second.file_id != loc.file_id || now->second.offset != loc.offset) continue;
+            co_return std::unexpected(handle.error());
+        }
 
-    if (entry.is_tombstone())
-    {
-        stats_.gets_miss_total++;
-        co_return std::nullopt;
-    }
+        ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
+        DataEntry entry = KIO_TRY(co_await async_read_entry(handle.value()->get(), loc.offset, loc.total_size));
 
-    co_return entry.value;
+        if (entry.is_tombstone())
+        {
+            stats_.gets_miss_total++;
+            co_return std::nullopt;
+        }
+
+        co_return std::move(entry.value);
+    }
 }
 
 
@@ -141,12 +153,7 @@ Task<Result<void>> Partition::del(const std::string& key)
 
 Task<Result<FDCache::Handle>> Partition::find_fd(const uint64_t file_id)
 {
-    // if file id is the active one, flush first
-    if (file_id == active_file_->file_id())
-    {
-        KIO_TRY(co_await worker_.async_fdatasync(active_file_->handle().get()));
-    }
-
+    // No need to flush the active file first: what was written is visible to any descriptor of the file
     const auto path = get_data_file_path(file_id);
     co_return co_await fd_cache_.acquire(file_id, path);
 }
-- 
2.43.0


From a038095364bca0cdf7b38a82ab0e8a0501525d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 45/62] fix: keep the active file when its successor cannot be
 created

---
 bitcask/include/partition.h |  2 +-
 bitcask/src/partition.cpp   | 38 +++++++++++++++++++++++--------------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 2c2a8e1..f59ad7c 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -85,7 +85,7 @@ namespace bitcask
         // recover the partition and runtime stats
         kio::Task<kio::Result<void>> recover();
         kio::Task<bool> try_recover_from_hint(uint64_t file_id);
-        kio::Task<kio::Result<void>> create_and_set_active_file();
+        kio::Task<kio::Result<std::unique_ptr<DataFile>>> create_data_file();
         /**
          * Seal the active file, truncate it to the actual db size.
          * This method invalidates the active file.
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 22a2b43..9872344 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -174,41 +174,46 @@ Task<Result<void>> Partition::rotate_active_file()
     // Assert partition is initialized
     assert(active_file_ && "Partition not initialized - active_file_ is null");
 
+    // Create the new active file first: if this fails, the current one stays in use
+    auto created = co_await create_data_file();
+    if (!created.has_value())
+    {
+        co_return std::unexpected(created.error());
+    }
+    const auto sealed = std::exchange(active_file_, std::move(created.value()));
+
+    stats_.file_rotations_total++;
+
     // Get the actual written size before flushing and closing
-    const uint64_t actual_size = active_file_->size();
-    const int active_fd = active_file_->handle().get();
+    const uint64_t actual_size = sealed->size();
+    const int sealed_fd = sealed->handle().get();
 
     // Flush
-    KIO_TRY(co_await worker_.async_fsync(active_file_->handle().get()));
+    KIO_TRY(co_await worker_.async_fsync(sealed_fd));
 
     // truncate to the actual used space
-    KIO_TRY(co_await worker_.async_ftruncate(active_fd, static_cast<off_t>(actual_size)));
+    KIO_TRY(co_await worker_.async_ftruncate(sealed_fd, static_cast<off_t>(actual_size)));
 
     // close
-    KIO_TRY(co_await active_file_->async_close());
+    KIO_TRY(co_await sealed->async_close());
 
     // No need to add to FD cache as it will be done when needed
 
-    // Create a new active file
-    KIO_TRY(co_await create_and_set_active_file());
-
-    stats_.file_rotations_total++;
-
     co_return {};
 }
 
-Task<Result<void>> Partition::create_and_set_active_file()
+Task<Result<std::unique_ptr<DataFile>>> Partition::create_data_file()
 {
     uint64_t new_id = file_id_gen_.next();
     int new_fd = KIO_TRY(co_await worker_.async_openat(get_data_file_path(new_id), config_.write_flags, config_.file_mode));
 
-    active_file_ = std::make_unique<DataFile>(new_fd, new_id, worker_, config_);
+    auto file = std::make_unique<DataFile>(new_fd, new_id, worker_, config_);
 
     // Pre-allocate
     // TODO: remove to fix test for now
     co_await worker_.async_fallocate(new_fd, 0, static_cast<off_t>(config_.max_file_size));
 
-    co_return {};
+    co_return std::move(file);
 }
 
 bool Partition::should_compact_file(const uint64_t file_id) const
@@ -524,7 +529,12 @@ Task<Result<void>> Partition::recover()
     }
 
     // create and set an active file
-    KIO_TRY(co_await create_and_set_active_file());
+    auto created = co_await create_data_file();
+    if (!created.has_value())
+    {
+        co_return std::unexpected(created.error());
+    }
+    active_file_ = std::move(created.value());
 
     co_return {};
 }
-- 
2.43.0


From 43b9bc917b08b5a0f6e7133c95320fa85c3ce778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 46/62] fix: do not take a failed write for the end of the file
 being compacted

---
 bitcask/src/compactor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 9b57872..faea870 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -143,6 +143,12 @@ namespace bitcask::compactor
                 // FIX: Check the result of parsing. If it fails, assume we hit the unsealed tail.
                 auto parse_result = co_await parse_entries_from_buffer(ctx, file_read_pos, src_file_id, dst_data_fd, dst_hint_fd);
 
+                if (!parse_result.has_value() && parse_result.error().category != ErrorCategory::Serialization)
+                {
+                    // Not about the data: writing it failed
+                    co_return parse_result;
+                }
+
                 if (!parse_result.has_value())
                 {
                     // Logic: If we encounter a deserialization error, it likely means we hit the zero-filled
-- 
2.43.0


From e6eb9fcf884f2a832fbd46c21bc0a53389197e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 47/62] fix: remove compacted files only once what they hold is
 durable elsewhere

---
 bitcask/src/compactor.cpp | 57 +++++++++++++++++++++++++++++----------
 bitcask/src/partition.cpp | 10 +++----
 2 files changed, 48 insertions(+), 19 deletions(-)

diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index faea870..7fbe4f9 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -5,7 +5,9 @@
 
 #include "bitcask/include/compactor.h"
 
+#include <filesystem>
 #include <format>
+#include <ranges>
 #include <ylt/struct_pack.hpp>
 
 #include "bitcask/include/file_handle.h"
@@ -27,9 +29,12 @@ namespace bitcask::compactor
         const auto hint_path = detail::get_hint_file_path(ctx, ctx.dst_file_id);
 
         const int data_fd = KIO_TRY(co_await ctx.io_worker.async_openat(data_path, ctx.config.write_flags, ctx.config.file_mode));
-        const int hint_fd = KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode));
-
         FileHandle data_handle(data_fd);
+
+        // Written aside: recovery trusts hint files, so there must be none before the data is durable
+        auto hint_tmp_path = hint_path;
+        hint_tmp_path += ".tmp";
+        const int hint_fd = KIO_TRY(co_await ctx.io_worker.async_openat(hint_tmp_path, ctx.config.write_flags, ctx.config.file_mode));
         FileHandle hint_handle(hint_fd);
 
         // Pre-allocate
@@ -53,6 +58,20 @@ namespace bitcask::compactor
         KIO_TRY(co_await ctx.io_worker.async_fsync(data_fd));
         KIO_TRY(co_await ctx.io_worker.async_fsync(hint_fd));
 
+        std::error_code ec;
+        std::filesystem::rename(hint_tmp_path, hint_path, ec);
+        if (ec)
+        {
+            ALOG_ERROR("Failed to rename hint file {}: {}", hint_tmp_path.string(), ec.message());
+            co_return std::unexpected(Error::from_errno(ec.value()));
+        }
+
+        // Only now can the source files go
+        for (const uint64_t src_file_id: ctx.src_file_ids)
+        {
+            KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
+        }
+
         double reduction = ctx.bytes_read > 0 ? 100.0 * (1.0 - static_cast<double>(ctx.bytes_written) / static_cast<double>(ctx.bytes_read)) : 0.0;
 
         ALOG_INFO("Compaction complete: kept {}, discarded {}, wrote {}KB (from {}KB, {:.1f}% reduction)", ctx.entries_kept, ctx.entries_discarded, ctx.bytes_written / 1024, ctx.bytes_read / 1024,
@@ -75,17 +94,6 @@ namespace bitcask::compactor
 
         KIO_TRY(co_await detail::commit_batch(ctx, dst_data_fd, dst_hint_fd));
 
-        // Update stats: a source file is gone
-        if (const auto it = ctx.stats.data_files.find(src_file_id); it != ctx.stats.data_files.end())
-        {
-            ctx.stats.bytes_reclaimed_total += it->second.total_bytes - it->second.live_bytes;
-            ctx.stats.data_files.erase(it);
-        }
-
-        ctx.stats.files_compacted_total++;
-
-        KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
-
         co_return {};
     }
 
@@ -264,7 +272,28 @@ namespace bitcask::compactor
 
         Task<Result<void>> cleanup_source_files(const CompactionContext& ctx, const uint64_t src_file_id)
         {
-            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_data_file_path(ctx, src_file_id), 0);
+            // What could not be decoded was not copied
+            for (const auto& loc: ctx.keydir | std::views::values)
+            {
+                if (loc.file_id == src_file_id)
+                {
+                    ALOG_ERROR("File {} still holds live entries, keeping it", src_file_id);
+                    co_return {};
+                }
+            }
+
+            KIO_TRY(co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_data_file_path(ctx, src_file_id), 0));
+
+            // Update stats: a source file is gone
+            if (const auto it = ctx.stats.data_files.find(src_file_id); it != ctx.stats.data_files.end())
+            {
+                ctx.stats.bytes_reclaimed_total += it->second.total_bytes - it->second.live_bytes;
+                ctx.stats.data_files.erase(it);
+            }
+
+            ctx.stats.files_compacted_total++;
+
+            // There may be no hint file
             co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_hint_file_path(ctx, src_file_id), 0);
             co_return {};
         }
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 9872344..ea71c47 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -674,12 +674,12 @@ Task<Result<void>> Partition::compact()
     {
         ALOG_INFO("Partition {}: compaction succeeded", partition_id_);
         stats_.compactions_total++;
+    }
 
-        // Remove compacted files from FD cache
-        for (const uint64_t src_id: ctx.src_file_ids)
-        {
-            fd_cache_.remove(src_id);
-        }
+    // Remove compacted files from FD cache
+    for (const uint64_t src_id: ctx.src_file_ids)
+    {
+        if (!stats_.data_files.contains(src_id)) fd_cache_.remove(src_id);
     }
 
     co_return {};
-- 
2.43.0


From a46579c5f1c33bf2ff63db6f912a8ab91ba4f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 48/62] fix: keep the tombstones that compaction still needs

---
 bitcask/include/compactor.h |  2 ++
 bitcask/include/entry.h     |  2 +-
 bitcask/src/compactor.cpp   | 18 ++++++++++++++++--
 bitcask/src/partition.cpp   | 10 +++++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/bitcask/include/compactor.h b/bitcask/include/compactor.h
index a883da1..c5bf535 100644
--- a/bitcask/include/compactor.h
+++ b/bitcask/include/compactor.h
@@ -91,6 +91,8 @@ namespace bitcask::compactor
 
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, uint64_t old_offset, uint64_t old_file_id);
 
+        bool is_tombstone_needed(const CompactionContext& ctx, const DataEntry& entry, uint64_t file_id);
+
         bool update_keydir_if_matches(const CompactionContext& ctx, const std::string& key, const ValueLocation& new_loc, uint64_t expected_file_id, uint64_t expected_offset);
 
         std::filesystem::path get_data_file_path(const CompactionContext& ctx, uint64_t file_id);
diff --git a/bitcask/include/entry.h b/bitcask/include/entry.h
index 6b53147..9a7f447 100644
--- a/bitcask/include/entry.h
+++ b/bitcask/include/entry.h
@@ -32,7 +32,7 @@ namespace bitcask
     // +----------------+--------+-----------+----------------+
     // - timestamp_ns : uint64_t nanosecond timestamp
     // - entry_pos: position of the serialized data entry in the datafile
-    // - total_sz: Total size of the serialized data entry in the datafile
+    // - total_sz: Total size of the serialized data entry in the datafile, 0 for a tombstone
     // - key:
 
     // PAYLOAD (struct_pack serialization of Entry):
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 7fbe4f9..71645b3 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -5,6 +5,7 @@
 
 #include "bitcask/include/compactor.h"
 
+#include <algorithm>
 #include <filesystem>
 #include <format>
 #include <ranges>
@@ -208,7 +209,9 @@ namespace bitcask::compactor
 
         void process_parsed_entry(CompactionContext& ctx, const DataEntry& data_entry, const uint64_t decoded_size, uint64_t entry_offset, uint64_t src_file_id, std::span<const char> readable_data)
         {
-            if (!is_live_entry(ctx, data_entry, entry_offset, src_file_id))
+            const bool keep_tombstone = data_entry.is_tombstone() && is_tombstone_needed(ctx, data_entry, src_file_id);
+
+            if (!keep_tombstone && !is_live_entry(ctx, data_entry, entry_offset, src_file_id))
             {
                 ctx.entries_discarded++;
                 return;
@@ -220,10 +223,12 @@ namespace bitcask::compactor
 
             ValueLocation new_loc{ctx.dst_file_id, ctx.current_data_offset + ctx.data_batch.size(), static_cast<uint32_t>(decoded_size), data_entry.timestamp_ns};
 
-            const HintEntry hint{new_loc.timestamp_ns, new_loc.offset, new_loc.total_size, std::string(data_entry.key)};
+            // In a hint file, a size of 0 stands for a tombstone
+            const HintEntry hint{new_loc.timestamp_ns, new_loc.offset, keep_tombstone ? 0 : new_loc.total_size, std::string(data_entry.key)};
 
             ctx.data_batch.insert(ctx.data_batch.end(), raw_entry.begin(), raw_entry.end());
             struct_pack::serialize_to(ctx.hint_batch, hint);
+            if (keep_tombstone) return;
             ctx.keydir_batch.emplace_back(std::string(data_entry.key), new_loc, src_file_id, entry_offset);
         }
 
@@ -306,6 +311,15 @@ namespace bitcask::compactor
             return it->second.timestamp_ns == entry.timestamp_ns && it->second.offset == old_offset && it->second.file_id == old_file_id;
         }
 
+        bool is_tombstone_needed(const CompactionContext& ctx, const DataEntry& entry, const uint64_t file_id)
+        {
+            // Written again since: that entry outlives the tombstone
+            if (ctx.keydir.contains(entry.key)) return false;
+
+            // Otherwise an older file may still hold the key: without the tombstone, recovery would bring it back
+            return std::ranges::any_of(ctx.stats.data_files | std::views::keys, [file_id](const uint64_t other) { return other < file_id; });
+        }
+
         bool update_keydir_if_matches(const CompactionContext& ctx, const std::string& key, const ValueLocation& new_loc, const uint64_t expected_file_id, const uint64_t expected_offset)
         {
             const auto it = ctx.keydir.find(key);
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index ea71c47..f811c6b 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -369,7 +369,15 @@ Task<Result<void>> Partition::recover_from_hint_file(const FileHandle& fh, const
         const auto& entry = res.value();
         const size_t bytes_this_entry = struct_pack::get_needed_size(entry);
 
-        keydir_[std::string(entry.key)] = ValueLocation{file_id, entry.entry_pos, entry.total_sz, entry.timestamp_ns};
+        if (entry.total_sz == 0)
+        {
+            // A tombstone kept by compaction
+            keydir_.erase(entry.key);
+        }
+        else
+        {
+            keydir_[std::string(entry.key)] = ValueLocation{file_id, entry.entry_pos, entry.total_sz, entry.timestamp_ns};
+        }
         buf_span = buf_span.subspan(bytes_this_entry);
     }
 
-- 
2.43.0


From 723804fffe336b8f67fa61b3c8afc52f8f1d3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 49/62] fix: compact one set of files at a time, into a file
 older than what is written meanwhile

---
 bitcask/include/partition.h |  2 ++
 bitcask/src/partition.cpp   | 39 ++++++++++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index f59ad7c..126a182 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -45,6 +45,8 @@ namespace bitcask
         // Serializes what appends to, rotates or seals the active file: the steps of these operations
         // suspend, and must not interleave with one another.
         AsyncMutex write_lock_;
+        // Held by the compaction that runs
+        AsyncMutex compaction_lock_;
 
         [[nodiscard]] bool is_open() const { return active_file_ != nullptr && !shutting_down_.load(); }
         [[nodiscard]] static kio::Error closed_error() { return kio::Error::from_errno(EBADF); }
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index f811c6b..5798aaa 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -287,7 +287,6 @@ DetachedTask Partition::compaction_loop()
 
         // Reset trigger
         compaction_trigger_.reset();
-        stats_.compaction_running = false;
     }
 
     ALOG_INFO("Partition {} compaction loop exiting", partition_id_);
@@ -654,22 +653,42 @@ Task<Result<void>> Partition::async_close()
 
 Task<Result<void>> Partition::compact()
 {
-    auto fragmented_files = find_fragmented_files();
+    // Only look at the partition from its worker
+    co_await SwitchToWorker(worker_);
 
-    if (fragmented_files.empty())
+    // One compaction at a time: two would move the same entries and remove the same files
+    const auto running = co_await compaction_lock_.lock();
+
+    std::vector<uint64_t> fragmented_files;
+    uint64_t dst_file_id = 0;
     {
-        ALOG_DEBUG("Partition {}: no files to compact", partition_id_);
-        compaction_trigger_.reset();
-        co_return {};
+        const auto lock = co_await write_lock_.lock();
+        if (!is_open())
+        {
+            co_return std::unexpected(closed_error());
+        }
+
+        fragmented_files = find_fragmented_files();
+
+        if (fragmented_files.empty())
+        {
+            ALOG_DEBUG("Partition {}: no files to compact", partition_id_);
+            co_return {};
+        }
+
+        // Generate destination file ID. Recovery reads the files in the order of their IDs, so whatever is
+        // written from now on must go to a file with a larger one.
+        dst_file_id = file_id_gen_.next();
+        KIO_TRY(co_await rotate_active_file());
     }
 
+    // Oldest first, as recovery does
+    std::ranges::sort(fragmented_files);
+
     ALOG_INFO("Partition {}: compacting {} files", partition_id_, fragmented_files.size());
 
     stats_.compaction_running = true;
 
-    // Generate destination file ID
-    const uint64_t dst_file_id = file_id_gen_.next();
-
     // Create compaction context
     compactor::CompactionContext ctx(worker_, config_, keydir_, stats_, partition_id_, dst_file_id, std::move(fragmented_files), compaction_limits_);
 
@@ -690,6 +709,8 @@ Task<Result<void>> Partition::compact()
         if (!stats_.data_files.contains(src_id)) fd_cache_.remove(src_id);
     }
 
+    stats_.compaction_running = false;
+
     co_return {};
 }
 
-- 
2.43.0


From 129ff88ab91b50a0ccd94a24da0ac013a4946ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 50/62] fix: wait for a partition's background loops and
 compaction when closing it

---
 bitcask/include/partition.h |  7 +++++++
 bitcask/src/partition.cpp   | 32 +++++++++++++++++++++++++++-----
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 126a182..6c57de0 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -39,12 +39,17 @@ namespace bitcask
         PartitionStats stats_{};
 
         kio::sync::AsyncBaton compaction_trigger_;
+        kio::sync::AsyncBaton sync_trigger_;
+        // Set once the last background loop is gone
+        kio::sync::AsyncBaton loops_done_;
+        size_t background_loops_{0};
         compactor::CompactionLimits compaction_limits_{};
         std::atomic<bool> shutting_down_{false};
 
         // Serializes what appends to, rotates or seals the active file: the steps of these operations
         // suspend, and must not interleave with one another.
         AsyncMutex write_lock_;
+        AsyncMutex close_lock_;
         // Held by the compaction that runs
         AsyncMutex compaction_lock_;
 
@@ -60,6 +65,8 @@ namespace bitcask
         kio::DetachedTask compaction_loop();
         // background sync job for the active file, in case sync_on_write is not set
         kio::DetachedTask background_sync();
+        // to be called last by these loops
+        void end_background_loop();
         void signal_compaction(uint64_t file_id);
         bool should_compact_file(uint64_t file_id) const;
         std::vector<uint64_t> find_fragmented_files() const;
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 5798aaa..8379a76 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -5,7 +5,8 @@ using namespace kio;
 using namespace kio::io;
 
 Partition::Partition(const BitcaskConfig& config, Worker& worker, const size_t partition_id) :
-    keydir_(&mem_pool_), worker_(worker), fd_cache_(worker, config.max_open_sealed_files), file_id_gen_(partition_id), config_(config), partition_id_(partition_id), compaction_trigger_(worker)
+    keydir_(&mem_pool_), worker_(worker), fd_cache_(worker, config.max_open_sealed_files), file_id_gen_(partition_id), config_(config), partition_id_(partition_id), compaction_trigger_(worker),
+    sync_trigger_(worker), loops_done_(worker)
 {
     //  Recovery, compaction loop delegated to open factory method
 }
@@ -290,6 +291,13 @@ DetachedTask Partition::compaction_loop()
     }
 
     ALOG_INFO("Partition {} compaction loop exiting", partition_id_);
+    end_background_loop();
+}
+
+void Partition::end_background_loop()
+{
+    // Nothing may touch the partition after the last one
+    if (--background_loops_ == 0) loops_done_.notify();
 }
 
 
@@ -580,11 +588,13 @@ Task<Result<std::unique_ptr<Partition>>> Partition::open(const BitcaskConfig& co
     if (config.auto_compact)
     {
         // run the compaction loop in the background
+        partition->background_loops_++;
         partition->compaction_loop().detach();
     }
     // if durability not set, start periodic sync
     if (!config.sync_on_write)
     {
+        partition->background_loops_++;
         partition->background_sync().detach();
     }
     co_return std::move(partition);
@@ -633,12 +643,22 @@ Task<Result<void>> Partition::async_close()
 
     co_await SwitchToWorker(worker_);
 
-    // Signal shutdown to compaction loop
-    shutting_down_.store(true);
+    // One close at a time
+    const auto closing = co_await close_lock_.lock();
 
-    // Wake up the compaction loop so it can exit cleanly
+    // Signal shutdown to the background loops
+    shutting_down_.store(true);
 
+    // Wake them up so they can exit cleanly, and wait until they did: they use the partition
     compaction_trigger_.notify();
+    sync_trigger_.notify();
+    if (background_loops_ > 0)
+    {
+        co_await loops_done_.wait();
+    }
+
+    // So does a compaction
+    const auto idle = co_await compaction_lock_.lock();
 
     // Seal the active file if it exists and hasn't been sealed by rotation
     const auto lock = co_await write_lock_.lock();
@@ -733,7 +753,8 @@ DetachedTask Partition::background_sync()
     const auto st = worker_.get_stop_token();
     while (!st.stop_requested() && !shutting_down_.load())
     {
-        co_await worker_.async_sleep(std::chrono::milliseconds(config_.sync_interval));
+        // Cut short by a close
+        co_await sync_trigger_.wait_for(config_.sync_interval);
         // check again after wakeup
         if (shutting_down_.load())
         {
@@ -747,4 +768,5 @@ DetachedTask Partition::background_sync()
         }
     }
     ALOG_INFO("Partition {} background sync loop exiting", partition_id_);
+    end_background_loop();
 }
-- 
2.43.0


From d4c9e9d7757c07698aeed120f9efedad49e146ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 51/62] fix: report partitions that fail to close

---
 bitcask/src/bitcask.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index 0e6cdc1..9da5194 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -186,12 +186,17 @@ DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, InitState& s
 
 Task<Result<void>> BitKV::close() const
 {
+    // Close them all, then report the first failure
+    Result<void> result{};
     for (const auto& partition: partitions_)
     {
-        co_await partition->async_close();
+        if (auto closed = co_await partition->async_close(); !closed.has_value() && result.has_value())
+        {
+            result = std::unexpected(closed.error());
+        }
     }
 
-    co_return {};
+    co_return result;
 }
 
 size_t BitKV::route_to_partition(const std::string_view key) const
-- 
2.43.0


From 85ba7d914c5076b290304954e8e9ec2ae0f55a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 52/62] fix: do not let a failed write come back after a crash

---
 bitcask/include/data_file.h |  3 +++
 bitcask/src/data_file.cpp   |  8 ++++++++
 bitcask/src/partition.cpp   | 11 +++++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/bitcask/include/data_file.h b/bitcask/include/data_file.h
index 91fdfe2..85bafdd 100644
--- a/bitcask/include/data_file.h
+++ b/bitcask/include/data_file.h
@@ -41,6 +41,8 @@ namespace bitcask
         [[nodiscard]] FileHandle& handle() { return handle_; }
         [[nodiscard]] uint64_t size() const { return size_; }
         [[nodiscard]] bool should_rotate(size_t max_file_size) const;
+        // Whether a failed write may have left an entry after the end of the file
+        [[nodiscard]] bool has_leftover() const { return leftover_; }
 
     private:
         // timestamp_s based id
@@ -48,6 +50,7 @@ namespace bitcask
         uint64_t file_id_{0};
         FileHandle handle_;
         uint64_t size_{0};
+        bool leftover_{false};
         // useful to perform compaction of files older than X
         // on seal, file metadata is also written to disk
         // data_id_.metadata, or we can rely on fstats
diff --git a/bitcask/src/data_file.cpp b/bitcask/src/data_file.cpp
index 453a90a..f671496 100644
--- a/bitcask/src/data_file.cpp
+++ b/bitcask/src/data_file.cpp
@@ -40,6 +40,13 @@ namespace bitcask
         const auto entry_offset = size_;
         const auto written_len = static_cast<uint32_t>(serialized_entry.size());
 
+        if (leftover_)
+        {
+            // Recovery must not take what a failed write left for an entry
+            KIO_TRY(co_await io_worker_.async_ftruncate(handle_.get(), static_cast<off_t>(size_)));
+        }
+        leftover_ = true;
+
         // The file must be opened without O_APPEND for this pwrite-based call to work correctly.
         KIO_TRY(co_await io_worker_.async_write_exact_at(handle_.get(), serialized_entry, entry_offset));
 
@@ -50,6 +57,7 @@ namespace bitcask
         }
 
         // Atomically update size_ for the next write
+        leftover_ = false;
         size_ += written_len;
 
         co_return std::pair{entry_offset, written_len};
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 8379a76..c0320aa 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -118,12 +118,14 @@ Task<Result<void>> Partition::del(const std::string& key)
 
     stats_.deletes_total++;
 
-    if (!keydir_.contains(key))
+    const bool known = keydir_.contains(key);
+    if (!known && !active_file_->has_leftover())
     {
         co_return {};
     }
 
-    // Write the tombstone first: the key is only gone once this succeeded
+    // Write the tombstone first: the key is only gone once this succeeded. A put of the key that failed may
+    // have reached the file, so it takes one even if the key is not known.
     const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
     auto [_, size] = KIO_TRY(co_await active_file_->async_write(tombstone));
 
@@ -131,6 +133,11 @@ Task<Result<void>> Partition::del(const std::string& key)
     auto& active_stats = stats_.data_files[active_file_->file_id()];
     active_stats.total_bytes += size;
 
+    if (!known)
+    {
+        co_return {};
+    }
+
     // Look the key up only now: compaction may have moved it meanwhile
     const auto it = keydir_.find(key);
     const uint64_t old_file_id = it->second.file_id;
-- 
2.43.0


From c49c7bdd5407421e77d0bbd2edebf2749e5f87e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 53/62] fix: make newer writes durable before compaction
 removes what they replace

---
 bitcask/include/compactor.h | 5 +++++
 bitcask/src/compactor.cpp   | 5 +++++
 bitcask/src/partition.cpp   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/bitcask/include/compactor.h b/bitcask/include/compactor.h
index c5bf535..0280dc2 100644
--- a/bitcask/include/compactor.h
+++ b/bitcask/include/compactor.h
@@ -5,6 +5,8 @@
 #ifndef KIO_COMPACTOR_H
 #define KIO_COMPACTOR_H
 
+#include <functional>
+
 #include "kio/core/bytes_mut.h"
 #include "kio/core/worker.h"
 #include "config.h"
@@ -50,6 +52,9 @@ namespace bitcask::compactor
         uint64_t current_data_offset = 0;
         uint64_t current_hint_offset = 0;
 
+        // Makes what was written meanwhile durable: it is why other entries were not copied
+        std::function<kio::Task<kio::Result<void>>()> sync_writes;
+
         // Compaction metrics
         uint64_t entries_kept = 0;
         uint64_t entries_discarded = 0;
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 71645b3..5055eab 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -67,6 +67,11 @@ namespace bitcask::compactor
             co_return std::unexpected(Error::from_errno(ec.value()));
         }
 
+        if (ctx.sync_writes)
+        {
+            KIO_TRY(co_await ctx.sync_writes());
+        }
+
         // Only now can the source files go
         for (const uint64_t src_file_id: ctx.src_file_ids)
         {
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index c0320aa..e2500c3 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -719,6 +719,11 @@ Task<Result<void>> Partition::compact()
     // Create compaction context
     compactor::CompactionContext ctx(worker_, config_, keydir_, stats_, partition_id_, dst_file_id, std::move(fragmented_files), compaction_limits_);
 
+    if (!config_.sync_on_write)
+    {
+        ctx.sync_writes = [this] { return sync(); };
+    }
+
     if (auto result = co_await compactor::compact_files(ctx); !result.has_value())
     {
         ALOG_ERROR("Partition {}: compaction failed: {}", partition_id_, result.error());
-- 
2.43.0


From 342c4299fa55d982cde62a2e82a3337e873a91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 54/62] fix: closing a partition works with descriptor 0 and
 after a close that failed

---
 bitcask/src/partition.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index e2500c3..6841137 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -619,9 +619,9 @@ Task<Result<void>> Partition::seal_active_file()
 
     const uint64_t actual_size = active_file_->size();
     const int active_fd = active_file_->handle().get();
-    uint64_t actual_file_id = active_file_id();
 
-    if (active_fd > 0)
+    // Otherwise an earlier attempt got as far as closing it (0 is a descriptor like any other)
+    if (active_fd >= 0)
     {
         KIO_TRY(co_await worker_.async_fsync(active_fd));
 
@@ -629,14 +629,6 @@ Task<Result<void>> Partition::seal_active_file()
 
         KIO_TRY(co_await active_file_->async_close());
     }
-    else
-    {
-        // close and remove as this active file was never used
-        ALOG_DEBUG("The active file is empty, we will remove it, file_id {}", actual_file_id);
-        KIO_TRY(co_await active_file_->async_close());
-        const auto path = config_.directory / std::format("partition_{}/data_{}.db", partition_id_, actual_file_id);
-        KIO_TRY(co_await worker_.async_unlink_at(active_fd, path, config_.file_mode));
-    }
 
     // Remove pointer to prevent double-closing in dtor
     active_file_.reset();
-- 
2.43.0


From cd7f1c6aa93639d1789e11fa637f59185274cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 55/62] fix: cut a merged data file to what was written to it

---
 bitcask/src/compactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 5055eab..925e614 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -55,6 +55,9 @@ namespace bitcask::compactor
         // Final flush
         KIO_TRY(co_await detail::commit_batch(ctx, data_fd, hint_fd));
 
+        // Give back what was preallocated and is not needed
+        KIO_TRY(co_await ctx.io_worker.async_ftruncate(data_fd, static_cast<off_t>(ctx.current_data_offset)));
+
         // Sync
         KIO_TRY(co_await ctx.io_worker.async_fsync(data_fd));
         KIO_TRY(co_await ctx.io_worker.async_fsync(hint_fd));
-- 
2.43.0


From 73069b735d67f08229e4f13068fa1597004370ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 56/62] fix: do not keep tombstones for the sake of older files
 that are empty

---
 bitcask/src/compactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 925e614..9358fd0 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -325,7 +325,7 @@ namespace bitcask::compactor
             if (ctx.keydir.contains(entry.key)) return false;
 
             // Otherwise an older file may still hold the key: without the tombstone, recovery would bring it back
-            return std::ranges::any_of(ctx.stats.data_files | std::views::keys, [file_id](const uint64_t other) { return other < file_id; });
+            return std::ranges::any_of(ctx.stats.data_files, [file_id](const auto& other) { return other.first < file_id && other.second.total_bytes > 0; });
         }
 
         bool update_keydir_if_matches(const CompactionContext& ctx, const std::string& key, const ValueLocation& new_loc, const uint64_t expected_file_id, const uint64_t expected_offset)
-- 
2.43.0


From 60ba64caad8a370624ca5551d38746ae585e674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 57/62] fix: do not take a file with leading zeros in its id
 for a data file

---
 bitcask/src/partition.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 6841137..7b78c03 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -345,8 +345,9 @@ std::vector<uint64_t> Partition::scan_data_files() const
         // now parse
         uint64_t file_id;
 
-        // verify success and push eventually
-        if (auto [p, ec] = std::from_chars(file_id_str.data(), file_id_str.data() + file_id_str.size(), file_id); ec == std::errc{} && p == file_id_str.data() + file_id_str.size())
+        // verify success and push eventually; the ID has to be the one that gives this very name (007 is not 7)
+        if (auto [p, ec] = std::from_chars(file_id_str.data(), file_id_str.data() + file_id_str.size(), file_id);
+            ec == std::errc{} && p == file_id_str.data() + file_id_str.size() && file_id_str == std::to_string(file_id))
         {
             result.push_back(file_id);
         }
-- 
2.43.0


From 81c3c0f1413f85cd824d6979980dcaa4e82c09ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 58/62] fix: write compaction output at explicit offsets

When io_uring cuts a write short (no space left, file size limit), the
kernel may report the short count without having moved the file position.
Writing the rest at the file position then overwrote the first part, and
the write counted as complete although the entries were not there.
---
 bitcask/src/compactor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 9358fd0..bea8825 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -244,8 +244,9 @@ namespace bitcask::compactor
         {
             if (ctx.data_batch.empty()) co_return {};
 
-            KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_data_fd, std::span(ctx.data_batch)));
-            KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_hint_fd, std::span(ctx.hint_batch)));
+            // At explicit offsets: after a short write (disk full), the kernel may not have moved the file position
+            KIO_TRY(co_await ctx.io_worker.async_write_exact_at(dst_data_fd, std::span(ctx.data_batch), ctx.current_data_offset));
+            KIO_TRY(co_await ctx.io_worker.async_write_exact_at(dst_hint_fd, std::span(ctx.hint_batch), ctx.current_hint_offset));
 
             ctx.bytes_written += ctx.data_batch.size();
 
-- 
2.43.0


From 2afdcd49bed750eaf087c88c24b46e1629d2d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 59/62] fix: do not overwrite a short write to a file with the
 rest of it

io_uring may report a write at the file position that was cut short (no
space left, file size limit) without having moved the position. The next
round of async_write_exact then wrote the rest over the first part and
reported success.
---
 kio/core/worker.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index da264ef..02b4b60 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -10,6 +10,7 @@
 #include <liburing.h>
 #include <sys/eventfd.h>
 #include <sys/utsname.h>
+#include <unistd.h>
 
 #include "async_logger.h"
 #include "uring_awaitable.h"
@@ -492,6 +493,9 @@ namespace kio::io
         {
             std::span<const char> remaining_buf = buf.subspan(total_bytes_written);
 
+            // Fails for anything that has no position, like a socket
+            const off_t position = ::lseek(client_fd, 0, SEEK_CUR);
+
             const int bytes_written = KIO_TRY(co_await this->async_write(client_fd, remaining_buf));
 
             if (bytes_written == 0)
@@ -500,6 +504,13 @@ namespace kio::io
             }
 
             total_bytes_written += static_cast<size_t>(bytes_written);
+
+            // The kernel may report a write cut short (disk full) without having moved the file position: do not
+            // overwrite what was written with the rest
+            if (total_bytes_written < total_to_write && position >= 0 && ::lseek(client_fd, 0, SEEK_CUR) == position)
+            {
+                ::lseek(client_fd, bytes_written, SEEK_CUR);
+            }
         }
 
         co_return {};
-- 
2.43.0


From c56b52608191091b1532f4dbbd2532126e64f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:14 +0000
Subject: [PATCH 60/62] fix: make a full file durable before rotating away from
 it

When flushing the file that is rotated out failed, the store went on with a
new active file; a later sync() covered only that one and reported success
although writes to the other file were not durable.
---
 bitcask/src/partition.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 7b78c03..1b0c886 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -182,7 +182,17 @@ Task<Result<void>> Partition::rotate_active_file()
     // Assert partition is initialized
     assert(active_file_ && "Partition not initialized - active_file_ is null");
 
-    // Create the new active file first: if this fails, the current one stays in use
+    // Get the actual written size before flushing and closing
+    const uint64_t actual_size = active_file_->size();
+    const int active_fd = active_file_->handle().get();
+
+    // Flush. As long as the file is the active one, a later sync covers what this one could not make durable
+    KIO_TRY(co_await worker_.async_fsync(active_fd));
+
+    // truncate to the actual used space
+    KIO_TRY(co_await worker_.async_ftruncate(active_fd, static_cast<off_t>(actual_size)));
+
+    // Create the new active file before letting go of the current one: if this fails, that one stays in use
     auto created = co_await create_data_file();
     if (!created.has_value())
     {
@@ -192,16 +202,6 @@ Task<Result<void>> Partition::rotate_active_file()
 
     stats_.file_rotations_total++;
 
-    // Get the actual written size before flushing and closing
-    const uint64_t actual_size = sealed->size();
-    const int sealed_fd = sealed->handle().get();
-
-    // Flush
-    KIO_TRY(co_await worker_.async_fsync(sealed_fd));
-
-    // truncate to the actual used space
-    KIO_TRY(co_await worker_.async_ftruncate(sealed_fd, static_cast<off_t>(actual_size)));
-
     // close
     KIO_TRY(co_await sealed->async_close());
 
-- 
2.43.0


From 5f72243a95d03fafefc54ee00b34e45553d157b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 61/62] fix: make room in a full submission queue instead of
 failing the operation

Operations resumed from one batch of completions can be more than the queue holds. The metrics
server's accept loop then got EAGAIN without ever suspending and span for ever, and clients whose
read could not be queued were dropped.
---
 kio/core/uring_awaitable.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kio/core/uring_awaitable.h b/kio/core/uring_awaitable.h
index 0669ce0..d00328e 100644
--- a/kio/core/uring_awaitable.h
+++ b/kio/core/uring_awaitable.h
@@ -44,6 +44,12 @@ namespace kio::io
 
             sqe_ = io_uring_get_sqe(&internal::WorkerAccess::get_ring(worker_));
             if (sqe_ == nullptr)
+            {
+                // the queue is full of operations the loop has not submitted yet: submit them to make room
+                io_uring_submit(&internal::WorkerAccess::get_ring(worker_));
+                sqe_ = io_uring_get_sqe(&internal::WorkerAccess::get_ring(worker_));
+            }
+            if (sqe_ == nullptr)
             {
                 // no SQE available right now; return error immediately
                 internal::WorkerAccess::release_op_id(worker_, op_id_);
-- 
2.43.0


From ba50c5089e9eb5afa5a46950f545499dd942e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 62/62] fix: reads and writes of 4 GiB and more are cut to what
 one operation can carry instead of truncating their length

---
 kio/core/worker.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 02b4b60..aec69e3 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -410,11 +410,14 @@ namespace kio::io
         co_return ret;
     }
 
+    // The most the kernel moves in one call. A longer request has to be cut: its length does not fit the submission entry.
+    static constexpr size_t kMaxTransfer = 0x7ffff000;
+
     Task<Result<int>> Worker::async_read(const int client_fd, std::span<char> buf) { co_return co_await async_read_at(client_fd, buf, static_cast<uint64_t>(-1)); }
 
     Task<Result<int>> Worker::async_read_at(const int client_fd, std::span<char> buf, const uint64_t offset)
     {
-        auto prep = [](io_uring_sqe *sqe, const int fd, char *b, const size_t len, const uint64_t off) { io_uring_prep_read(sqe, fd, b, static_cast<int>(len), off); };
+        auto prep = [](io_uring_sqe *sqe, const int fd, char *b, const size_t len, const uint64_t off) { io_uring_prep_read(sqe, fd, b, static_cast<unsigned>(std::min(len, kMaxTransfer)), off); };
         int ret = co_await make_uring_awaitable(*this, prep, client_fd, buf.data(), buf.size(), offset);
         if (ret < 0)
         {
@@ -471,7 +474,7 @@ namespace kio::io
 
     Task<Result<int>> Worker::async_write_at(const int client_fd, std::span<const char> buf, const uint64_t offset)
     {
-        auto prep = [](io_uring_sqe *sqe, const int fd, const char *b, const size_t len, const uint64_t off) { io_uring_prep_write(sqe, fd, b, static_cast<int>(len), off); };
+        auto prep = [](io_uring_sqe *sqe, const int fd, const char *b, const size_t len, const uint64_t off) { io_uring_prep_write(sqe, fd, b, static_cast<unsigned>(std::min(len, kMaxTransfer)), off); };
         int ret = co_await make_uring_awaitable(*this, prep, client_fd, buf.data(), buf.size(), offset);
         if (ret < 0)
         {
-- 
2.43.0

