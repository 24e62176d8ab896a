From a38adeaed40955d5d9726c325f3c9f134351622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 01/11] fix: publish a grown deque buffer with release order

A thief can load the buffer pointer of a resized deque without having seen the
m_bottom store that follows the resize; with a relaxed store the buffer's
capacity, mask and storage pointer were then read without synchronisation.
---
 include/libfork/core/ext/deque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index 89a488b..4aa3bd4 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -392,7 +392,8 @@ constexpr auto deque<T>::push(T const &val) -> void {
       // This should never throw as we reserve 64 slots.
       m_garbage.emplace_back(std::exchange(buf, bigger));
     }();
-    m_buf.store(buf, relaxed);
+    // Publish the contents of the new buffer, a thief may follow this pointer without seeing m_bottom.
+    m_buf.store(buf, release);
   }
 
   // Construct new object, this does not have to be atomic as no one can steal this item until
-- 
2.43.0


From d7ea5d53c1ec254eb1531d1840fbbdfc72b0bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 02/11] fix: eager/sync modifiers must check children whose
 return address cannot hold an exception

---
 include/libfork/core/impl/promise.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 0d0fb30..7cc10d1 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -214,7 +214,7 @@ struct promise_base : frame {
 
     awaitable->set_parent(this);
 
-    constexpr bool throwing = stash_exception_in_return<I>;
+    constexpr bool throwing = !stash_exception_in_return<I>;
 
     using enum region;
 
-- 
2.43.0


From 7ecfc32a73f86dd694aa8c5a6a11b2732998a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 03/11] hook: LF_VERIF_STEAL_ATTEMPTS shortens the steal loop
 of a pool worker

---
 include/libfork/schedule/impl/numa_context.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libfork/schedule/impl/numa_context.hpp b/include/libfork/schedule/impl/numa_context.hpp
index 53f0669..7bebd4e 100644
--- a/include/libfork/schedule/impl/numa_context.hpp
+++ b/include/libfork/schedule/impl/numa_context.hpp
@@ -43,11 +43,19 @@ struct numa_context {
   /**
    * @brief The minimum number of steal attempts we will make per `try_steal` operation.
    */
+#ifdef LF_VERIF_STEAL_ATTEMPTS // Verification hook: keeps controlled executions short.
+  static constexpr std::size_t k_min_steal_attempts = LF_VERIF_STEAL_ATTEMPTS;
+#else
   static constexpr std::size_t k_min_steal_attempts = 1024;
+#endif
   /**
    * @brief The number of steal attempts we will make per target in a `try_steal` operation.
    */
+#ifdef LF_VERIF_STEAL_ATTEMPTS
+  static constexpr std::size_t k_steal_attempts_per_target = 1;
+#else
   static constexpr std::size_t k_steal_attempts_per_target = 32;
+#endif
   /**
    * @brief Thread-local RNG.
    */
-- 
2.43.0


From f8f45f2e755bdd29b675d1c23e7881a5cf37e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 04/11] fix: lazy_pool workers must not drop work that was
 submitted before the stop request

---
 include/libfork/schedule/lazy_pool.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index ef43035..16e07ff 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -227,14 +227,18 @@ wake_up:
 
   auto key = my_numa_vars.notifier.prepare_wait();
 
+  // Must be read **before** we check our private work, otherwise a submission that
+  // happens between the two checks and before the stop request would be lost.
+  bool const stop_requested = my_context->shared().stop.test(acquire);
+
   if (auto *submission = my_context->try_pop_all()) {
-    // Check our private **before** `stop`.
+    // Handle our private work **before** honoring `stop`.
     my_numa_vars.notifier.cancel_wait();
     my_context->shared().thief_work_sleep(submission, numa_tid);
     goto wake_up;
   }
 
-  if (my_context->shared().stop.test(acquire)) {
+  if (stop_requested) {
     // A stop has been requested, we will honor it under the assumption
     // that the requester has ensured that everyone is done. We cannot check
     // this i.e it is possible a thread that just signaled the master thread
-- 
2.43.0


From 0b869b1207a5fe408eaff4bbfa1b0f8752902821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 05/11] fix: lazy_pool's last-thief/first-active handshake
 needs sequential consistency

---
 include/libfork/schedule/lazy_pool.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index 16e07ff..fb55d76 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -56,6 +56,10 @@ static constexpr std::memory_order acq_rel = std::memory_order_acq_rel;
  * @brief Alias to the `std` version.
  */
 static constexpr std::memory_order release = std::memory_order_release;
+/**
+ * @brief Alias to the `std` version.
+ */
+static constexpr std::memory_order seq_cst = std::memory_order_seq_cst;
 
 /**
  * @brief A collection of heap allocated atomic variables used for tracking the state of the scheduler.
@@ -116,11 +120,12 @@ struct lazy_vars : busy_vars {
     // A <- A + 1
     // Si <- Si - 1
 
-    // If we are the first active then we need to maintain the invariant across all numa domains.
+    // If we are the first active then we need to maintain the invariant across all numa domains. This must be
+    // seq_cst to synchronize with the last thief going to sleep: either we see Ti == 0 or it sees A > 0.
 
-    if (active.fetch_add(1, acq_rel) == 0) {
+    if (active.fetch_add(1, seq_cst) == 0) {
       for (auto &&domain : numa) {
-        if (domain.thief.load(acquire) == 0) {
+        if (domain.thief.load(seq_cst) == 0) {
           domain.notifier.notify_one();
         }
       }
@@ -263,11 +268,11 @@ wake_up:
    * This maintains invariant in numa.
    */
 
-  if (my_numa_vars.thief.fetch_sub(1, acq_rel) == 1) {
+  if (my_numa_vars.thief.fetch_sub(1, seq_cst) == 1) {
 
     // If we are the last thief then invariant may be broken if A > 0 as S > 0 (because we are asleep).
 
-    if (my_context->shared().active.load(acquire) > 0) {
+    if (my_context->shared().active.load(seq_cst) > 0) {
       // Restore the invariant if A > 0 by immediately waking self.
       my_numa_vars.notifier.cancel_wait();
       goto wake_up;
-- 
2.43.0


From 8f809c13bfec2551edc2f959a20e680bcbcca730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 06/11] fix: schedule() must destroy the coroutine on the stack
 it was allocated on when the scheduler throws

---
 include/libfork/core/sync_wait.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/sync_wait.hpp b/include/libfork/core/sync_wait.hpp
index 5784057..6b4df95 100644
--- a/include/libfork/core/sync_wait.hpp
+++ b/include/libfork/core/sync_wait.hpp
@@ -273,13 +273,19 @@ schedule(Sch &&sch, F &&fun, Args &&...args) -> future<async_result_t<F, Args...
   await->set_root_sem(&share_state->sem);
 
   // If this throws then `await` will clean up the coroutine.
-  impl::ignore_t{} = impl::tls::thread_stack->release();
+  impl::stack::stacklet *stacklet = impl::tls::thread_stack->release();
 
   // We will pass a pointer to this to .schedule()
   share_state->node.construct(std::bit_cast<impl::submit_t *>(await.get()));
 
   // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up.
-  std::forward<Sch>(sch).schedule(share_state->node.data());
+  LF_TRY {
+    std::forward<Sch>(sch).schedule(share_state->node.data());
+  } LF_CATCH_ALL {
+    // The coroutine must be cleaned up on the stack that it was allocated on.
+    *impl::tls::thread_stack = impl::stack{stacklet};
+    LF_RETHROW;
+  }
   // If -^ didn't throw then we release ownership of the coroutine, it will be cleaned up by the worker.
   impl::ignore_t{} = await.release();
 
-- 
2.43.0


From 894294966bf44e79fc2d35fdc8c258bf2b075ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 07/11] fix: a worker that fails to initialise propagates the
 error

worker_init() swallowed an exception thrown while constructing the thread's
stack and then registered the destroyed context; the context's constructors
were noexcept although constructing a deque allocates.
---
 include/libfork/core/ext/context.hpp | 4 ++--
 include/libfork/core/ext/tls.hpp     | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/ext/context.hpp b/include/libfork/core/ext/context.hpp
index de43258..d729fb9 100644
--- a/include/libfork/core/ext/context.hpp
+++ b/include/libfork/core/ext/context.hpp
@@ -98,7 +98,7 @@ class worker_context : impl::immovable<context> {
    * Notify is a function that may be called concurrently by other workers to signal to the
    * worker owning this context that a task has been submitted to a private queue.
    */
-  explicit worker_context(nullary_function_t notify) noexcept : m_notify(std::move(notify)) {
+  explicit worker_context(nullary_function_t notify) : m_notify(std::move(notify)) {
     LF_ASSERT(m_notify);
   }
 
@@ -128,7 +128,7 @@ class full_context : public worker_context {
   /**
    * @brief Construct a new full context object, store a copy of the user provided notification function.
    */
-  explicit full_context(nullary_function_t notify) noexcept : worker_context(std::move(notify)) {}
+  explicit full_context(nullary_function_t notify) : worker_context(std::move(notify)) {}
 
   /**
    * @brief Add a task to the work queue.
diff --git a/include/libfork/core/ext/tls.hpp b/include/libfork/core/ext/tls.hpp
index eaae831..b1b4937 100644
--- a/include/libfork/core/ext/tls.hpp
+++ b/include/libfork/core/ext/tls.hpp
@@ -111,6 +111,7 @@ inline namespace ext {
     impl::tls::thread_stack.construct();
   } LF_CATCH_ALL {
     impl::tls::thread_context.destroy();
+    LF_RETHROW;
   }
 
   impl::tls::has_stack = true;
-- 
2.43.0


From 9de4af3d12e6d974d04ff6ea320a2c1d5620711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 08/11] fix: a deque whose construction fails does not leak its
 buffer

---
 include/libfork/core/ext/deque.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index 4aa3bd4..c526e60 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -350,8 +350,10 @@ template <dequeable T>
 constexpr deque<T>::deque(std::ptrdiff_t cap)
     : m_top(0),
       m_bottom(0),
-      m_buf(new impl::atomic_ring_buf<T>{cap}) {
+      m_buf(nullptr) {
+  // If this throws there is no buffer to leak.
   m_garbage.reserve(k_garbage_reserve);
+  m_buf.store(new impl::atomic_ring_buf<T>{cap}, relaxed);
 }
 
 template <dequeable T>
-- 
2.43.0


From 15aa851a02035fda67df201c5ece13e68a966ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 09/11] fix: co_new of more elements than fit in memory throws
 bad_alloc

---
 include/libfork/core/impl/awaitables.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index a7859b1..8000e13 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -12,9 +12,12 @@
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
+#include <cstddef>     // for size_t
 #include <cstdint>     // for uint16_t
 #include <iterator>    // for iter_difference_t
+#include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
+#include <new>         // for bad_alloc
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
@@ -194,10 +197,15 @@ struct alloc_awaitable : std::suspend_never {
 
     LF_ASSERT(stack->top() == self->stacklet()); // Must own the stack.
 
-    T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
-
     using int_t = std::iter_difference_t<T *>;
 
+    // The number of bytes must not wrap around.
+    if (request.count > static_cast<std::size_t>(std::numeric_limits<int_t>::max()) / sizeof(T)) {
+      LF_THROW(std::bad_alloc());
+    }
+
+    T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
+
     // clang-format off
 
     LF_TRY {
-- 
2.43.0


From 11ac2221105c17a198732f2cacf2d3bd2c262660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 10/11] fix: a scope may have more than 65534 steals

The 16 bit counters of steals and joins wrapped around: with 65535 children
that found their parent stolen one of them resumed the parent before it had
reached its join.
---
 include/libfork/core/impl/awaitables.hpp | 30 ++++++++++++------------
 include/libfork/core/impl/frame.hpp      | 20 ++++++++--------
 include/libfork/core/impl/promise.hpp    |  4 ++--
 include/libfork/core/impl/utility.hpp    |  4 ++--
 4 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index 8000e13..1e191c6 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -13,7 +13,7 @@
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
 #include <cstddef>     // for size_t
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <iterator>    // for iter_difference_t
 #include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
@@ -31,7 +31,7 @@
 #include "libfork/core/impl/frame.hpp"        // for frame
 #include "libfork/core/impl/stack.hpp"        // for stack
 #include "libfork/core/impl/unique_frame.hpp" // for unique_frame, frame_deleter
-#include "libfork/core/impl/utility.hpp"      // for k_u16_max, checked_cast
+#include "libfork/core/impl/utility.hpp"      // for k_u32_max, checked_cast
 #include "libfork/core/invocable.hpp"         // for ignore_t
 #include "libfork/core/macro.hpp"             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW
 #include "libfork/core/scheduler.hpp"         // for context_switcher
@@ -113,7 +113,7 @@ struct context_switch_awaitable {
     // steals then we do not own the stack this coroutine is on and the resumer should not
     // take the stack otherwise, we should give-it-up and the resumer should take it.
 
-    std::uint16_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
+    std::uint32_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
 
     // Assert the above paragraphs validity.
 #ifndef NDEBUG
@@ -310,7 +310,7 @@ struct sync_fork_awaitable : fork_awaitable {
     // must not have thrown an exception. We can check if __some__ child threw an
     // exception but we cannot (generally) retrieve it as exception is not safe
     // to touch until after a join.
-    if (std::uint16_t steals_post = self->load_steals(); steals_post == steals_pre) {
+    if (std::uint32_t steals_post = self->load_steals(); steals_post == steals_pre) {
 
       // Then completed synchronously.
 
@@ -337,7 +337,7 @@ struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief The number of times the parent was stolen __before__ the fork.
    */
-  std::uint16_t steals_pre;
+  std::uint32_t steals_pre;
 };
 
 /**
@@ -437,14 +437,14 @@ struct join_awaitable {
       // Therefore no need to reset the control block.
       return true;
     }
-    // Currently:            joins() = k_u16_max - num_joined
-    // Hence:       k_u16_max - joins() = num_joined
+    // Currently:            joins() = k_u32_max - num_joined
+    // Hence:       k_u32_max - joins() = num_joined
 
     // Could use (relaxed) + (fence(acquire) in truthy branch) but, it's
     // better if we see all the decrements to joins() and avoid suspending
     // the coroutine if possible. Cannot fetch_sub() here and write to frame
     // as coroutine must be suspended first.
-    auto joined = k_u16_max - self->load_joins(std::memory_order_acquire);
+    auto joined = k_u32_max - self->load_joins(std::memory_order_acquire);
 
     if (self->load_steals() == joined) {
       LF_LOG("Sync is ready");
@@ -460,17 +460,17 @@ struct join_awaitable {
    * @brief Mark at join point then yield to scheduler or resume if children are done.
    */
   auto await_suspend(std::coroutine_handle<> task) const noexcept -> std::coroutine_handle<> {
-    // Currently        joins  = k_u16_max  - num_joined
-    // We set           joins  = joins()    - (k_u16_max - num_steals)
+    // Currently        joins  = k_u32_max  - num_joined
+    // We set           joins  = joins()    - (k_u32_max - num_steals)
     //                         = num_steals - num_joined
 
-    // Hence               joined = k_u16_max - num_joined
-    //         k_u16_max - joined = num_joined
+    // Hence               joined = k_u32_max - num_joined
+    //         k_u32_max - joined = num_joined
 
     auto steals = self->load_steals();
-    auto joined = self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release);
+    auto joined = self->fetch_sub_joins(k_u32_max - steals, std::memory_order_release);
 
-    if (steals == k_u16_max - joined) {
+    if (steals == k_u32_max - joined) {
       // We set joins after all children had completed therefore we can resume the task.
       // Need to acquire to ensure we see all writes by other threads to the result.
       std::atomic_thread_fence(std::memory_order_acquire);
@@ -499,7 +499,7 @@ struct join_awaitable {
     LF_LOG("join resumes");
     // Check we have been reset.
     LF_ASSERT(self->load_steals() == 0);
-    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u16_max);
+    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u32_max);
     LF_ASSERT(self->stacklet() == tls::stack()->top());
 
     self->unsafe_rethrow_if_exception();
diff --git a/include/libfork/core/impl/frame.hpp b/include/libfork/core/impl/frame.hpp
index 7a4ec84..37d2c03 100644
--- a/include/libfork/core/impl/frame.hpp
+++ b/include/libfork/core/impl/frame.hpp
@@ -9,9 +9,9 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <atomic>      // for atomic_ref, memory_order, atomic_uint16_t
+#include <atomic>      // for atomic_ref, memory_order, atomic_uint32_t
 #include <coroutine>   // for coroutine_handle
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <exception>   // for exception_ptr, operator==, current_exce...
 #include <memory>      // for construct_at
 #include <semaphore>   // for binary_semaphore
@@ -22,7 +22,7 @@
 #include "libfork/core/defer.hpp"                // for LF_DEFER
 #include "libfork/core/impl/manual_lifetime.hpp" // for manual_lifetime
 #include "libfork/core/impl/stack.hpp"           // for stack
-#include "libfork/core/impl/utility.hpp"         // for non_null, k_u16_max
+#include "libfork/core/impl/utility.hpp"         // for non_null, k_u32_max
 #include "libfork/core/macro.hpp"                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
 
 /**
@@ -70,11 +70,11 @@ class frame {
   /**
    * @brief  Number of children joined (with offset).
    */
-  std::atomic_uint16_t m_join = k_u16_max;
+  std::atomic_uint32_t m_join = k_u32_max;
   /**
    * @brief Number of times this frame has been stolen.
    */
-  std::uint16_t m_steal = 0;
+  std::uint32_t m_steal = 0;
 
 /**
  * @brief Flag to indicate if an exception has been set.
@@ -179,26 +179,26 @@ class frame {
   /**
    * @brief Perform a `.load(order)` on the atomic join counter.
    */
-  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint16_t {
+  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint32_t {
     return m_join.load(order);
   }
 
   /**
    * @brief Perform a `.fetch_sub(val, order)` on the atomic join counter.
    */
-  auto fetch_sub_joins(std::uint16_t val, std::memory_order order) noexcept -> std::uint16_t {
+  auto fetch_sub_joins(std::uint32_t val, std::memory_order order) noexcept -> std::uint32_t {
     return m_join.fetch_sub(val, order);
   }
 
   /**
    * @brief Get the number of times this frame has been stolen.
    */
-  [[nodiscard]] auto load_steals() const noexcept -> std::uint16_t { return m_steal; }
+  [[nodiscard]] auto load_steals() const noexcept -> std::uint32_t { return m_steal; }
 
   /**
    * @brief Increase the steal counter by one and return the previous value.
    */
-  auto fetch_add_steal() noexcept -> std::uint16_t { return m_steal++; }
+  auto fetch_add_steal() noexcept -> std::uint32_t { return m_steal++; }
 
   /**
    * @brief Reset the join and steal counters, must be outside a fork-join region.
@@ -211,7 +211,7 @@ class frame {
     // Use construct_at(...) to set non-atomically as we know we are the
     // only thread who can touch this control block until a steal which
     // would provide the required memory synchronization.
-    std::construct_at(&m_join, k_u16_max);
+    std::construct_at(&m_join, k_u32_max);
   }
 
   /**
diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 7cc10d1..7e67fe4 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -28,7 +28,7 @@
 #include "libfork/core/impl/frame.hpp"      // for frame
 #include "libfork/core/impl/return.hpp"     // for return_result
 #include "libfork/core/impl/stack.hpp"      // for stack
-#include "libfork/core/impl/utility.hpp"    // for byte_cast, k_u16_max
+#include "libfork/core/impl/utility.hpp"    // for byte_cast, k_u32_max
 #include "libfork/core/invocable.hpp"       // for return_address_for, ignore_t
 #include "libfork/core/just.hpp"            // for just_awaitable, just_wrapped
 #include "libfork/core/macro.hpp"           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...
@@ -306,7 +306,7 @@ struct promise : promise_base, return_result<R, I> {
     // Completing a non-root task means we currently own the stack_stack this child is on
 
     LF_ASSERT(this->load_steals() == 0);                                           // Fork without join.
-    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u16_max); // Invalid state.
+    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u32_max); // Invalid state.
     LF_ASSERT(!this->unsafe_has_exception());                                      // Must have rethrown.
 
     return final_awaitable{};
diff --git a/include/libfork/core/impl/utility.hpp b/include/libfork/core/impl/utility.hpp
index e966623..489adc2 100644
--- a/include/libfork/core/impl/utility.hpp
+++ b/include/libfork/core/impl/utility.hpp
@@ -12,7 +12,7 @@
 #include <bit>             // for bit_cast, has_single_bit
 #include <concepts>        // for same_as, integral, convertible_to
 #include <cstddef>         // for byte, size_t
-#include <cstdint>         // for uint16_t
+#include <cstdint>         // for uint32_t
 #include <cstdio>          // for fprintf, stderr
 #include <exception>       // for terminate
 #include <functional>      // for invoke
@@ -96,7 +96,7 @@ static_assert(std::has_single_bit(k_new_align));
 /**
  * @brief Shorthand for `std::numeric_limits<std::unt32_t>::max()`.
  */
-static constexpr std::uint16_t k_u16_max = std::numeric_limits<std::uint16_t>::max();
+static constexpr std::uint32_t k_u32_max = std::numeric_limits<std::uint32_t>::max();
 
 /**
  * @brief A dependent value to emulate `static_assert(false)` pre c++26.
-- 
2.43.0


From 4dab7108e34014c0f2478fab92e55641c49eee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 11/11] fix: the seq strategy works on machines without
 packages

---
 include/libfork/schedule/ext/numa.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libfork/schedule/ext/numa.hpp b/include/libfork/schedule/ext/numa.hpp
index f1053e0..b061e35 100644
--- a/include/libfork/schedule/ext/numa.hpp
+++ b/include/libfork/schedule/ext/numa.hpp
@@ -326,7 +326,10 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
       roots.push_back(next_numa);
       numa = next_numa;
     }
-  } else {
+  }
+
+  // Not every machine has (or exposes) packages, then its root is all there is to fill.
+  if (roots.empty()) {
     roots.push_back(hwloc_get_root_obj(m_topology.get()));
   }
 
-- 
2.43.0

