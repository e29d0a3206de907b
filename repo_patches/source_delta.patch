From 970d29078a75defa61cd9d448d351bb2e3cfa05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 01/14] fix: check the child's exception in dispatch modifiers
 for ordinary return addresses

The condition selecting the throwing awaitables was inverted: sync, sync_outside,
eager_throw and eager_throw_outside only looked at the frame's exception when the
child stores its exception in the return object, i.e. never when it matters.
---
 include/libfork/core/impl/promise.hpp | 2 +-
 single_header/libfork.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 0d0fb30..7cc10d1 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -214,7 +214,7 @@ struct promise_base : frame {
 
     awaitable->set_parent(this);
 
-    constexpr bool throwing = stash_exception_in_return<I>;
+    constexpr bool throwing = !stash_exception_in_return<I>;
 
     using enum region;
 
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 13906b5..00ddd9a 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -6156,7 +6156,7 @@ struct promise_base : frame {
 
     awaitable->set_parent(this);
 
-    constexpr bool throwing = stash_exception_in_return<I>;
+    constexpr bool throwing = !stash_exception_in_return<I>;
 
     using enum region;
 
-- 
2.43.0


From 8c1520df0613bd90b8b6a9e0acf02a088fbe9867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 02/14] fix: publish a grown deque buffer with release so
 thieves never race on it

---
 include/libfork/core/ext/deque.hpp | 2 +-
 single_header/libfork.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index 89a488b..01d69ff 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -392,7 +392,7 @@ constexpr auto deque<T>::push(T const &val) -> void {
       // This should never throw as we reserve 64 slots.
       m_garbage.emplace_back(std::exchange(buf, bigger));
     }();
-    m_buf.store(buf, relaxed);
+    m_buf.store(buf, release);
   }
 
   // Construct new object, this does not have to be atomic as no one can steal this item until
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 00ddd9a..2a0960b 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -1208,7 +1208,7 @@ constexpr auto deque<T>::push(T const &val) -> void {
       // This should never throw as we reserve 64 slots.
       m_garbage.emplace_back(std::exchange(buf, bigger));
     }();
-    m_buf.store(buf, relaxed);
+    m_buf.store(buf, release);
   }
 
   // Construct new object, this does not have to be atomic as no one can steal this item until
-- 
2.43.0


From f3c829f53a4cf5732bdf4e0a438318f14ce3a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 03/14] fix: worker_init propagates the exception when it
 cannot create a stack

---
 include/libfork/core/ext/tls.hpp | 1 +
 single_header/libfork.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/libfork/core/ext/tls.hpp b/include/libfork/core/ext/tls.hpp
index eaae831..b1b4937 100644
--- a/include/libfork/core/ext/tls.hpp
+++ b/include/libfork/core/ext/tls.hpp
@@ -111,6 +111,7 @@ inline namespace ext {
     impl::tls::thread_stack.construct();
   } LF_CATCH_ALL {
     impl::tls::thread_context.destroy();
+    LF_RETHROW;
   }
 
   impl::tls::has_stack = true;
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 2a0960b..410ab84 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -2578,6 +2578,7 @@ inline namespace ext {
     impl::tls::thread_stack.construct();
   } LF_CATCH_ALL {
     impl::tls::thread_context.destroy();
+    LF_RETHROW;
   }
 
   impl::tls::has_stack = true;
-- 
2.43.0


From 3c1370809fb53335796f0e047b06ca434b7c52b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 04/14] fix: take back the released stack when a scheduler's
 schedule throws

---
 include/libfork/core/sync_wait.hpp | 10 ++++++++--
 single_header/libfork.hpp          | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/libfork/core/sync_wait.hpp b/include/libfork/core/sync_wait.hpp
index 5784057..f24bb10 100644
--- a/include/libfork/core/sync_wait.hpp
+++ b/include/libfork/core/sync_wait.hpp
@@ -278,8 +278,14 @@ schedule(Sch &&sch, F &&fun, Args &&...args) -> future<async_result_t<F, Args...
   // We will pass a pointer to this to .schedule()
   share_state->node.construct(std::bit_cast<impl::submit_t *>(await.get()));
 
-  // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up.
-  std::forward<Sch>(sch).schedule(share_state->node.data());
+  // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up, for this
+  // we need to take back the stack that we released.
+  LF_TRY {
+    std::forward<Sch>(sch).schedule(share_state->node.data());
+  } LF_CATCH_ALL {
+    *impl::tls::thread_stack = impl::stack{await->stacklet()};
+    LF_RETHROW;
+  }
   // If -^ didn't throw then we release ownership of the coroutine, it will be cleaned up by the worker.
   impl::ignore_t{} = await.release();
 
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 410ab84..a507070 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -4827,8 +4827,14 @@ schedule(Sch &&sch, F &&fun, Args &&...args) -> future<async_result_t<F, Args...
   // We will pass a pointer to this to .schedule()
   share_state->node.construct(std::bit_cast<impl::submit_t *>(await.get()));
 
-  // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up.
-  std::forward<Sch>(sch).schedule(share_state->node.data());
+  // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up, for this
+  // we need to take back the stack that we released.
+  LF_TRY {
+    std::forward<Sch>(sch).schedule(share_state->node.data());
+  } LF_CATCH_ALL {
+    *impl::tls::thread_stack = impl::stack{await->stacklet()};
+    LF_RETHROW;
+  }
   // If -^ didn't throw then we release ownership of the coroutine, it will be cleaned up by the worker.
   impl::ignore_t{} = await.release();
 
-- 
2.43.0


From 7124fd4a9edc129ea67518942902fde429b33ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 05/14] fix: lazy_pool and busy_pool can be destroyed and
 assigned after being moved from

---
 include/libfork/schedule/busy_pool.hpp | 27 ++++++++++++-
 include/libfork/schedule/lazy_pool.hpp | 27 ++++++++++++-
 single_header/libfork.hpp              | 54 ++++++++++++++++++++++++--
 3 files changed, 100 insertions(+), 8 deletions(-)

diff --git a/include/libfork/schedule/busy_pool.hpp b/include/libfork/schedule/busy_pool.hpp
index df1d676..0983064 100644
--- a/include/libfork/schedule/busy_pool.hpp
+++ b/include/libfork/schedule/busy_pool.hpp
@@ -145,7 +145,19 @@ class busy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(busy_pool &&other) noexcept -> busy_pool & = default;
+  auto operator=(busy_pool &&other) noexcept -> busy_pool & {
+    if (this != &other) {
+      stop_and_join();
+      m_num_threads = other.m_num_threads;
+      m_dist = other.m_dist;
+      m_rng = other.m_rng;
+      m_share = std::move(other.m_share);
+      m_worker = std::move(other.m_worker);
+      m_threads = std::move(other.m_threads);
+      m_contexts = std::move(other.m_contexts);
+    }
+    return *this;
+  }
   /**
    * @brief The busy pool is not copy assignable.
    */
@@ -198,7 +210,18 @@ class busy_pool {
    */
   auto contexts() noexcept -> std::span<worker_context *> { return m_contexts; }
 
-  ~busy_pool() noexcept {
+  ~busy_pool() noexcept { stop_and_join(); }
+
+ private:
+  /**
+   * @brief Stop and join all workers, a no-op for a moved-from pool.
+   */
+  void stop_and_join() noexcept {
+
+    if (m_share == nullptr) {
+      return; // We have been moved from.
+    }
+
     LF_LOG("Requesting a stop");
     // Set conditions for workers to stop
     m_share->stop.test_and_set(std::memory_order_release);
diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index ef43035..b7c568c 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -312,7 +312,19 @@ class lazy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & = default;
+  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & {
+    if (this != &other) {
+      stop_and_join();
+      m_num_threads = other.m_num_threads;
+      m_dist = other.m_dist;
+      m_rng = other.m_rng;
+      m_share = std::move(other.m_share);
+      m_worker = std::move(other.m_worker);
+      m_threads = std::move(other.m_threads);
+      m_contexts = std::move(other.m_contexts);
+    }
+    return *this;
+  }
   /**
    * @brief The lazy pool is not copy assignable.
    */
@@ -378,7 +390,18 @@ class lazy_pool {
   /**
    * @brief Destroy the lazy pool object, stops all workers.
    */
-  ~lazy_pool() noexcept {
+  ~lazy_pool() noexcept { stop_and_join(); }
+
+ private:
+  /**
+   * @brief Stop and join all workers, a no-op for a moved-from pool.
+   */
+  void stop_and_join() noexcept {
+
+    if (m_share == nullptr) {
+      return; // We have been moved from.
+    }
+
     LF_LOG("Requesting a stop");
 
     // Set conditions for workers to stop.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index a507070..a849257 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -7596,7 +7596,19 @@ class busy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(busy_pool &&other) noexcept -> busy_pool & = default;
+  auto operator=(busy_pool &&other) noexcept -> busy_pool & {
+    if (this != &other) {
+      stop_and_join();
+      m_num_threads = other.m_num_threads;
+      m_dist = other.m_dist;
+      m_rng = other.m_rng;
+      m_share = std::move(other.m_share);
+      m_worker = std::move(other.m_worker);
+      m_threads = std::move(other.m_threads);
+      m_contexts = std::move(other.m_contexts);
+    }
+    return *this;
+  }
   /**
    * @brief The busy pool is not copy assignable.
    */
@@ -7649,7 +7661,18 @@ class busy_pool {
    */
   auto contexts() noexcept -> std::span<worker_context *> { return m_contexts; }
 
-  ~busy_pool() noexcept {
+  ~busy_pool() noexcept { stop_and_join(); }
+
+ private:
+  /**
+   * @brief Stop and join all workers, a no-op for a moved-from pool.
+   */
+  void stop_and_join() noexcept {
+
+    if (m_share == nullptr) {
+      return; // We have been moved from.
+    }
+
     LF_LOG("Requesting a stop");
     // Set conditions for workers to stop
     m_share->stop.test_and_set(std::memory_order_release);
@@ -8213,7 +8236,19 @@ class lazy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & = default;
+  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & {
+    if (this != &other) {
+      stop_and_join();
+      m_num_threads = other.m_num_threads;
+      m_dist = other.m_dist;
+      m_rng = other.m_rng;
+      m_share = std::move(other.m_share);
+      m_worker = std::move(other.m_worker);
+      m_threads = std::move(other.m_threads);
+      m_contexts = std::move(other.m_contexts);
+    }
+    return *this;
+  }
   /**
    * @brief The lazy pool is not copy assignable.
    */
@@ -8279,7 +8314,18 @@ class lazy_pool {
   /**
    * @brief Destroy the lazy pool object, stops all workers.
    */
-  ~lazy_pool() noexcept {
+  ~lazy_pool() noexcept { stop_and_join(); }
+
+ private:
+  /**
+   * @brief Stop and join all workers, a no-op for a moved-from pool.
+   */
+  void stop_and_join() noexcept {
+
+    if (m_share == nullptr) {
+      return; // We have been moved from.
+    }
+
     LF_LOG("Requesting a stop");
 
     // Set conditions for workers to stop.
-- 
2.43.0


From 1f4065dc1debbe532a38c3cb1911b18ff5a18a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 06/14] fix: lazy_pool uses sequentially consistent ordering so
 an active worker always leaves a thief awake

---
 include/libfork/schedule/lazy_pool.hpp | 14 +++++++++-----
 single_header/libfork.hpp              | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index b7c568c..c3448ed 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -56,6 +56,10 @@ static constexpr std::memory_order acq_rel = std::memory_order_acq_rel;
  * @brief Alias to the `std` version.
  */
 static constexpr std::memory_order release = std::memory_order_release;
+/**
+ * @brief Alias to the `std` version.
+ */
+static constexpr std::memory_order seq_cst = std::memory_order_seq_cst;
 
 /**
  * @brief A collection of heap allocated atomic variables used for tracking the state of the scheduler.
@@ -107,7 +111,7 @@ struct lazy_vars : busy_vars {
     //
     // In numa i we guarantee that Ti >= 1 by waking someone else if we are the last thief as Si != 0.
 
-    if (numa[tid].thief.fetch_sub(1, acq_rel) == 1) {
+    if (numa[tid].thief.fetch_sub(1, seq_cst) == 1) {
       numa[tid].notifier.notify_one();
     }
 
@@ -118,9 +122,9 @@ struct lazy_vars : busy_vars {
 
     // If we are the first active then we need to maintain the invariant across all numa domains.
 
-    if (active.fetch_add(1, acq_rel) == 0) {
+    if (active.fetch_add(1, seq_cst) == 0) {
       for (auto &&domain : numa) {
-        if (domain.thief.load(acquire) == 0) {
+        if (domain.thief.load(seq_cst) == 0) {
           domain.notifier.notify_one();
         }
       }
@@ -259,11 +263,11 @@ wake_up:
    * This maintains invariant in numa.
    */
 
-  if (my_numa_vars.thief.fetch_sub(1, acq_rel) == 1) {
+  if (my_numa_vars.thief.fetch_sub(1, seq_cst) == 1) {
 
     // If we are the last thief then invariant may be broken if A > 0 as S > 0 (because we are asleep).
 
-    if (my_context->shared().active.load(acquire) > 0) {
+    if (my_context->shared().active.load(seq_cst) > 0) {
       // Restore the invariant if A > 0 by immediately waking self.
       my_numa_vars.notifier.cancel_wait();
       goto wake_up;
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index a849257..1d255b8 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -7980,6 +7980,10 @@ static constexpr std::memory_order acq_rel = std::memory_order_acq_rel;
  * @brief Alias to the `std` version.
  */
 static constexpr std::memory_order release = std::memory_order_release;
+/**
+ * @brief Alias to the `std` version.
+ */
+static constexpr std::memory_order seq_cst = std::memory_order_seq_cst;
 
 /**
  * @brief A collection of heap allocated atomic variables used for tracking the state of the scheduler.
@@ -8031,7 +8035,7 @@ struct lazy_vars : busy_vars {
     //
     // In numa i we guarantee that Ti >= 1 by waking someone else if we are the last thief as Si != 0.
 
-    if (numa[tid].thief.fetch_sub(1, acq_rel) == 1) {
+    if (numa[tid].thief.fetch_sub(1, seq_cst) == 1) {
       numa[tid].notifier.notify_one();
     }
 
@@ -8042,9 +8046,9 @@ struct lazy_vars : busy_vars {
 
     // If we are the first active then we need to maintain the invariant across all numa domains.
 
-    if (active.fetch_add(1, acq_rel) == 0) {
+    if (active.fetch_add(1, seq_cst) == 0) {
       for (auto &&domain : numa) {
-        if (domain.thief.load(acquire) == 0) {
+        if (domain.thief.load(seq_cst) == 0) {
           domain.notifier.notify_one();
         }
       }
@@ -8183,11 +8187,11 @@ wake_up:
    * This maintains invariant in numa.
    */
 
-  if (my_numa_vars.thief.fetch_sub(1, acq_rel) == 1) {
+  if (my_numa_vars.thief.fetch_sub(1, seq_cst) == 1) {
 
     // If we are the last thief then invariant may be broken if A > 0 as S > 0 (because we are asleep).
 
-    if (my_context->shared().active.load(acquire) > 0) {
+    if (my_context->shared().active.load(seq_cst) > 0) {
       // Restore the invariant if A > 0 by immediately waking self.
       my_numa_vars.notifier.cancel_wait();
       goto wake_up;
-- 
2.43.0


From c47175ddd4ee25ef10bc4e7c2b921ac87f46e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 07/14] fix: count a frame's steals and joins in 32 bits so
 scopes with 65536 or more steals join correctly

---
 include/libfork/core/impl/awaitables.hpp | 30 ++++++------
 include/libfork/core/impl/frame.hpp      | 20 ++++----
 include/libfork/core/impl/promise.hpp    |  4 +-
 include/libfork/core/impl/utility.hpp    |  4 +-
 single_header/libfork.hpp                | 58 ++++++++++++------------
 5 files changed, 58 insertions(+), 58 deletions(-)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index a7859b1..896ab3a 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -12,7 +12,7 @@
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <iterator>    // for iter_difference_t
 #include <memory>      // for operator==, uninitialized_default_construct_n
 #include <span>        // for span
@@ -28,7 +28,7 @@
 #include "libfork/core/impl/frame.hpp"        // for frame
 #include "libfork/core/impl/stack.hpp"        // for stack
 #include "libfork/core/impl/unique_frame.hpp" // for unique_frame, frame_deleter
-#include "libfork/core/impl/utility.hpp"      // for k_u16_max, checked_cast
+#include "libfork/core/impl/utility.hpp"      // for k_u32_max, checked_cast
 #include "libfork/core/invocable.hpp"         // for ignore_t
 #include "libfork/core/macro.hpp"             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW
 #include "libfork/core/scheduler.hpp"         // for context_switcher
@@ -110,7 +110,7 @@ struct context_switch_awaitable {
     // steals then we do not own the stack this coroutine is on and the resumer should not
     // take the stack otherwise, we should give-it-up and the resumer should take it.
 
-    std::uint16_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
+    std::uint32_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
 
     // Assert the above paragraphs validity.
 #ifndef NDEBUG
@@ -302,7 +302,7 @@ struct sync_fork_awaitable : fork_awaitable {
     // must not have thrown an exception. We can check if __some__ child threw an
     // exception but we cannot (generally) retrieve it as exception is not safe
     // to touch until after a join.
-    if (std::uint16_t steals_post = self->load_steals(); steals_post == steals_pre) {
+    if (std::uint32_t steals_post = self->load_steals(); steals_post == steals_pre) {
 
       // Then completed synchronously.
 
@@ -329,7 +329,7 @@ struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief The number of times the parent was stolen __before__ the fork.
    */
-  std::uint16_t steals_pre;
+  std::uint32_t steals_pre;
 };
 
 /**
@@ -429,14 +429,14 @@ struct join_awaitable {
       // Therefore no need to reset the control block.
       return true;
     }
-    // Currently:            joins() = k_u16_max - num_joined
-    // Hence:       k_u16_max - joins() = num_joined
+    // Currently:            joins() = k_u32_max - num_joined
+    // Hence:       k_u32_max - joins() = num_joined
 
     // Could use (relaxed) + (fence(acquire) in truthy branch) but, it's
     // better if we see all the decrements to joins() and avoid suspending
     // the coroutine if possible. Cannot fetch_sub() here and write to frame
     // as coroutine must be suspended first.
-    auto joined = k_u16_max - self->load_joins(std::memory_order_acquire);
+    auto joined = k_u32_max - self->load_joins(std::memory_order_acquire);
 
     if (self->load_steals() == joined) {
       LF_LOG("Sync is ready");
@@ -452,17 +452,17 @@ struct join_awaitable {
    * @brief Mark at join point then yield to scheduler or resume if children are done.
    */
   auto await_suspend(std::coroutine_handle<> task) const noexcept -> std::coroutine_handle<> {
-    // Currently        joins  = k_u16_max  - num_joined
-    // We set           joins  = joins()    - (k_u16_max - num_steals)
+    // Currently        joins  = k_u32_max  - num_joined
+    // We set           joins  = joins()    - (k_u32_max - num_steals)
     //                         = num_steals - num_joined
 
-    // Hence               joined = k_u16_max - num_joined
-    //         k_u16_max - joined = num_joined
+    // Hence               joined = k_u32_max - num_joined
+    //         k_u32_max - joined = num_joined
 
     auto steals = self->load_steals();
-    auto joined = self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release);
+    auto joined = self->fetch_sub_joins(k_u32_max - steals, std::memory_order_release);
 
-    if (steals == k_u16_max - joined) {
+    if (steals == k_u32_max - joined) {
       // We set joins after all children had completed therefore we can resume the task.
       // Need to acquire to ensure we see all writes by other threads to the result.
       std::atomic_thread_fence(std::memory_order_acquire);
@@ -491,7 +491,7 @@ struct join_awaitable {
     LF_LOG("join resumes");
     // Check we have been reset.
     LF_ASSERT(self->load_steals() == 0);
-    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u16_max);
+    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u32_max);
     LF_ASSERT(self->stacklet() == tls::stack()->top());
 
     self->unsafe_rethrow_if_exception();
diff --git a/include/libfork/core/impl/frame.hpp b/include/libfork/core/impl/frame.hpp
index 7a4ec84..37d2c03 100644
--- a/include/libfork/core/impl/frame.hpp
+++ b/include/libfork/core/impl/frame.hpp
@@ -9,9 +9,9 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <atomic>      // for atomic_ref, memory_order, atomic_uint16_t
+#include <atomic>      // for atomic_ref, memory_order, atomic_uint32_t
 #include <coroutine>   // for coroutine_handle
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <exception>   // for exception_ptr, operator==, current_exce...
 #include <memory>      // for construct_at
 #include <semaphore>   // for binary_semaphore
@@ -22,7 +22,7 @@
 #include "libfork/core/defer.hpp"                // for LF_DEFER
 #include "libfork/core/impl/manual_lifetime.hpp" // for manual_lifetime
 #include "libfork/core/impl/stack.hpp"           // for stack
-#include "libfork/core/impl/utility.hpp"         // for non_null, k_u16_max
+#include "libfork/core/impl/utility.hpp"         // for non_null, k_u32_max
 #include "libfork/core/macro.hpp"                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
 
 /**
@@ -70,11 +70,11 @@ class frame {
   /**
    * @brief  Number of children joined (with offset).
    */
-  std::atomic_uint16_t m_join = k_u16_max;
+  std::atomic_uint32_t m_join = k_u32_max;
   /**
    * @brief Number of times this frame has been stolen.
    */
-  std::uint16_t m_steal = 0;
+  std::uint32_t m_steal = 0;
 
 /**
  * @brief Flag to indicate if an exception has been set.
@@ -179,26 +179,26 @@ class frame {
   /**
    * @brief Perform a `.load(order)` on the atomic join counter.
    */
-  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint16_t {
+  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint32_t {
     return m_join.load(order);
   }
 
   /**
    * @brief Perform a `.fetch_sub(val, order)` on the atomic join counter.
    */
-  auto fetch_sub_joins(std::uint16_t val, std::memory_order order) noexcept -> std::uint16_t {
+  auto fetch_sub_joins(std::uint32_t val, std::memory_order order) noexcept -> std::uint32_t {
     return m_join.fetch_sub(val, order);
   }
 
   /**
    * @brief Get the number of times this frame has been stolen.
    */
-  [[nodiscard]] auto load_steals() const noexcept -> std::uint16_t { return m_steal; }
+  [[nodiscard]] auto load_steals() const noexcept -> std::uint32_t { return m_steal; }
 
   /**
    * @brief Increase the steal counter by one and return the previous value.
    */
-  auto fetch_add_steal() noexcept -> std::uint16_t { return m_steal++; }
+  auto fetch_add_steal() noexcept -> std::uint32_t { return m_steal++; }
 
   /**
    * @brief Reset the join and steal counters, must be outside a fork-join region.
@@ -211,7 +211,7 @@ class frame {
     // Use construct_at(...) to set non-atomically as we know we are the
     // only thread who can touch this control block until a steal which
     // would provide the required memory synchronization.
-    std::construct_at(&m_join, k_u16_max);
+    std::construct_at(&m_join, k_u32_max);
   }
 
   /**
diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 7cc10d1..7e67fe4 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -28,7 +28,7 @@
 #include "libfork/core/impl/frame.hpp"      // for frame
 #include "libfork/core/impl/return.hpp"     // for return_result
 #include "libfork/core/impl/stack.hpp"      // for stack
-#include "libfork/core/impl/utility.hpp"    // for byte_cast, k_u16_max
+#include "libfork/core/impl/utility.hpp"    // for byte_cast, k_u32_max
 #include "libfork/core/invocable.hpp"       // for return_address_for, ignore_t
 #include "libfork/core/just.hpp"            // for just_awaitable, just_wrapped
 #include "libfork/core/macro.hpp"           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...
@@ -306,7 +306,7 @@ struct promise : promise_base, return_result<R, I> {
     // Completing a non-root task means we currently own the stack_stack this child is on
 
     LF_ASSERT(this->load_steals() == 0);                                           // Fork without join.
-    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u16_max); // Invalid state.
+    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u32_max); // Invalid state.
     LF_ASSERT(!this->unsafe_has_exception());                                      // Must have rethrown.
 
     return final_awaitable{};
diff --git a/include/libfork/core/impl/utility.hpp b/include/libfork/core/impl/utility.hpp
index e966623..489adc2 100644
--- a/include/libfork/core/impl/utility.hpp
+++ b/include/libfork/core/impl/utility.hpp
@@ -12,7 +12,7 @@
 #include <bit>             // for bit_cast, has_single_bit
 #include <concepts>        // for same_as, integral, convertible_to
 #include <cstddef>         // for byte, size_t
-#include <cstdint>         // for uint16_t
+#include <cstdint>         // for uint32_t
 #include <cstdio>          // for fprintf, stderr
 #include <exception>       // for terminate
 #include <functional>      // for invoke
@@ -96,7 +96,7 @@ static_assert(std::has_single_bit(k_new_align));
 /**
  * @brief Shorthand for `std::numeric_limits<std::unt32_t>::max()`.
  */
-static constexpr std::uint16_t k_u16_max = std::numeric_limits<std::uint16_t>::max();
+static constexpr std::uint32_t k_u32_max = std::numeric_limits<std::uint32_t>::max();
 
 /**
  * @brief A dependent value to emulate `static_assert(false)` pre c++26.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 1d255b8..6964ccf 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -566,7 +566,7 @@ LF_FORCEINLINE inline void thread_fence_seq_cst() {
 #include <bit>             // for bit_cast, has_single_bit
 #include <concepts>        // for same_as, integral, convertible_to
 #include <cstddef>         // for byte, size_t
-#include <cstdint>         // for uint16_t
+#include <cstdint>         // for uint32_t
 #include <cstdio>          // for fprintf, stderr
 #include <exception>       // for terminate
 #include <functional>      // for invoke
@@ -649,7 +649,7 @@ static_assert(std::has_single_bit(k_new_align));
 /**
  * @brief Shorthand for `std::numeric_limits<std::unt32_t>::max()`.
  */
-static constexpr std::uint16_t k_u16_max = std::numeric_limits<std::uint16_t>::max();
+static constexpr std::uint32_t k_u32_max = std::numeric_limits<std::uint32_t>::max();
 
 /**
  * @brief A dependent value to emulate `static_assert(false)` pre c++26.
@@ -1438,9 +1438,9 @@ class intrusive_list : impl::immovable<intrusive_list<T>> {
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <atomic>      // for atomic_ref, memory_order, atomic_uint16_t
+#include <atomic>      // for atomic_ref, memory_order, atomic_uint32_t
 #include <coroutine>   // for coroutine_handle
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <exception>   // for exception_ptr, operator==, current_exce...
 #include <memory>      // for construct_at
 #include <semaphore>   // for binary_semaphore
@@ -2000,7 +2000,7 @@ class stack {
 
 #endif /* F7577AB3_0439_404D_9D98_072AB84FBCD0 */
 
-           // for stack         // for non_null, k_u16_max                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
+           // for stack         // for non_null, k_u32_max                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
 
 /**
  * @file frame.hpp
@@ -2047,11 +2047,11 @@ class frame {
   /**
    * @brief  Number of children joined (with offset).
    */
-  std::atomic_uint16_t m_join = k_u16_max;
+  std::atomic_uint32_t m_join = k_u32_max;
   /**
    * @brief Number of times this frame has been stolen.
    */
-  std::uint16_t m_steal = 0;
+  std::uint32_t m_steal = 0;
 
 /**
  * @brief Flag to indicate if an exception has been set.
@@ -2156,26 +2156,26 @@ class frame {
   /**
    * @brief Perform a `.load(order)` on the atomic join counter.
    */
-  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint16_t {
+  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint32_t {
     return m_join.load(order);
   }
 
   /**
    * @brief Perform a `.fetch_sub(val, order)` on the atomic join counter.
    */
-  auto fetch_sub_joins(std::uint16_t val, std::memory_order order) noexcept -> std::uint16_t {
+  auto fetch_sub_joins(std::uint32_t val, std::memory_order order) noexcept -> std::uint32_t {
     return m_join.fetch_sub(val, order);
   }
 
   /**
    * @brief Get the number of times this frame has been stolen.
    */
-  [[nodiscard]] auto load_steals() const noexcept -> std::uint16_t { return m_steal; }
+  [[nodiscard]] auto load_steals() const noexcept -> std::uint32_t { return m_steal; }
 
   /**
    * @brief Increase the steal counter by one and return the previous value.
    */
-  auto fetch_add_steal() noexcept -> std::uint16_t { return m_steal++; }
+  auto fetch_add_steal() noexcept -> std::uint32_t { return m_steal++; }
 
   /**
    * @brief Reset the join and steal counters, must be outside a fork-join region.
@@ -2188,7 +2188,7 @@ class frame {
     // Use construct_at(...) to set non-atomically as we know we are the
     // only thread who can touch this control block until a steal which
     // would provide the required memory synchronization.
-    std::construct_at(&m_join, k_u16_max);
+    std::construct_at(&m_join, k_u32_max);
   }
 
   /**
@@ -5092,13 +5092,13 @@ using extern_ret_ptr_t = typename detail::extern_ret_ptr_impl<R>::type;
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <iterator>    // for iter_difference_t
 #include <memory>      // for operator==, uninitialized_default_construct_n
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
-          // for co_allocable, co_new_t, stack_allocated        // for exception_before_join       // for full_context       // for submit_handle, submit_node_t, task_handle          // for unwrap           // for stack, context        // for frame        // for stack // for unique_frame, frame_deleter      // for k_u16_max, checked_cast         // for ignore_t             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW         // for context_switcher               // for region
+          // for co_allocable, co_new_t, stack_allocated        // for exception_before_join       // for full_context       // for submit_handle, submit_node_t, task_handle          // for unwrap           // for stack, context        // for frame        // for stack // for unique_frame, frame_deleter      // for k_u32_max, checked_cast         // for ignore_t             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW         // for context_switcher               // for region
 
 /**
  * @file awaitables.hpp
@@ -5176,7 +5176,7 @@ struct context_switch_awaitable {
     // steals then we do not own the stack this coroutine is on and the resumer should not
     // take the stack otherwise, we should give-it-up and the resumer should take it.
 
-    std::uint16_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
+    std::uint32_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
 
     // Assert the above paragraphs validity.
 #ifndef NDEBUG
@@ -5368,7 +5368,7 @@ struct sync_fork_awaitable : fork_awaitable {
     // must not have thrown an exception. We can check if __some__ child threw an
     // exception but we cannot (generally) retrieve it as exception is not safe
     // to touch until after a join.
-    if (std::uint16_t steals_post = self->load_steals(); steals_post == steals_pre) {
+    if (std::uint32_t steals_post = self->load_steals(); steals_post == steals_pre) {
 
       // Then completed synchronously.
 
@@ -5395,7 +5395,7 @@ struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief The number of times the parent was stolen __before__ the fork.
    */
-  std::uint16_t steals_pre;
+  std::uint32_t steals_pre;
 };
 
 /**
@@ -5495,14 +5495,14 @@ struct join_awaitable {
       // Therefore no need to reset the control block.
       return true;
     }
-    // Currently:            joins() = k_u16_max - num_joined
-    // Hence:       k_u16_max - joins() = num_joined
+    // Currently:            joins() = k_u32_max - num_joined
+    // Hence:       k_u32_max - joins() = num_joined
 
     // Could use (relaxed) + (fence(acquire) in truthy branch) but, it's
     // better if we see all the decrements to joins() and avoid suspending
     // the coroutine if possible. Cannot fetch_sub() here and write to frame
     // as coroutine must be suspended first.
-    auto joined = k_u16_max - self->load_joins(std::memory_order_acquire);
+    auto joined = k_u32_max - self->load_joins(std::memory_order_acquire);
 
     if (self->load_steals() == joined) {
       LF_LOG("Sync is ready");
@@ -5518,17 +5518,17 @@ struct join_awaitable {
    * @brief Mark at join point then yield to scheduler or resume if children are done.
    */
   auto await_suspend(std::coroutine_handle<> task) const noexcept -> std::coroutine_handle<> {
-    // Currently        joins  = k_u16_max  - num_joined
-    // We set           joins  = joins()    - (k_u16_max - num_steals)
+    // Currently        joins  = k_u32_max  - num_joined
+    // We set           joins  = joins()    - (k_u32_max - num_steals)
     //                         = num_steals - num_joined
 
-    // Hence               joined = k_u16_max - num_joined
-    //         k_u16_max - joined = num_joined
+    // Hence               joined = k_u32_max - num_joined
+    //         k_u32_max - joined = num_joined
 
     auto steals = self->load_steals();
-    auto joined = self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release);
+    auto joined = self->fetch_sub_joins(k_u32_max - steals, std::memory_order_release);
 
-    if (steals == k_u16_max - joined) {
+    if (steals == k_u32_max - joined) {
       // We set joins after all children had completed therefore we can resume the task.
       // Need to acquire to ensure we see all writes by other threads to the result.
       std::atomic_thread_fence(std::memory_order_acquire);
@@ -5557,7 +5557,7 @@ struct join_awaitable {
     LF_LOG("join resumes");
     // Check we have been reset.
     LF_ASSERT(self->load_steals() == 0);
-    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u16_max);
+    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u32_max);
     LF_ASSERT(self->stacklet() == tls::stack()->top());
 
     self->unsafe_rethrow_if_exception();
@@ -5983,7 +5983,7 @@ struct return_result<void, discard_t> {
 
 #endif /* A896798B_7E3B_4854_9997_89EA5AE765EB */
 
-     // for return_result      // for stack    // for byte_cast, k_u16_max       // for return_address_for, ignore_t            // for just_awaitable, just_wrapped           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...       // for context_switcher             // for tag            // for returnable, task
+     // for return_result      // for stack    // for byte_cast, k_u32_max       // for return_address_for, ignore_t            // for just_awaitable, just_wrapped           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...       // for context_switcher             // for tag            // for returnable, task
 
 /**
  * @file promise.hpp
@@ -6255,7 +6255,7 @@ struct promise : promise_base, return_result<R, I> {
     // Completing a non-root task means we currently own the stack_stack this child is on
 
     LF_ASSERT(this->load_steals() == 0);                                           // Fork without join.
-    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u16_max); // Invalid state.
+    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u32_max); // Invalid state.
     LF_ASSERT(!this->unsafe_has_exception());                                      // Must have rethrown.
 
     return final_awaitable{};
-- 
2.43.0


From 6f177c36f919ba7fad1f8d8db66d62d6a8677409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 08/14] fix: an allocation failure while registering a worker
 is reported, not terminated on

---
 include/libfork/core/ext/context.hpp | 4 ++--
 single_header/libfork.hpp            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libfork/core/ext/context.hpp b/include/libfork/core/ext/context.hpp
index de43258..d729fb9 100644
--- a/include/libfork/core/ext/context.hpp
+++ b/include/libfork/core/ext/context.hpp
@@ -98,7 +98,7 @@ class worker_context : impl::immovable<context> {
    * Notify is a function that may be called concurrently by other workers to signal to the
    * worker owning this context that a task has been submitted to a private queue.
    */
-  explicit worker_context(nullary_function_t notify) noexcept : m_notify(std::move(notify)) {
+  explicit worker_context(nullary_function_t notify) : m_notify(std::move(notify)) {
     LF_ASSERT(m_notify);
   }
 
@@ -128,7 +128,7 @@ class full_context : public worker_context {
   /**
    * @brief Construct a new full context object, store a copy of the user provided notification function.
    */
-  explicit full_context(nullary_function_t notify) noexcept : worker_context(std::move(notify)) {}
+  explicit full_context(nullary_function_t notify) : worker_context(std::move(notify)) {}
 
   /**
    * @brief Add a task to the work queue.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 6964ccf..7b0255c 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -2424,7 +2424,7 @@ class worker_context : impl::immovable<context> {
    * Notify is a function that may be called concurrently by other workers to signal to the
    * worker owning this context that a task has been submitted to a private queue.
    */
-  explicit worker_context(nullary_function_t notify) noexcept : m_notify(std::move(notify)) {
+  explicit worker_context(nullary_function_t notify) : m_notify(std::move(notify)) {
     LF_ASSERT(m_notify);
   }
 
@@ -2454,7 +2454,7 @@ class full_context : public worker_context {
   /**
    * @brief Construct a new full context object, store a copy of the user provided notification function.
    */
-  explicit full_context(nullary_function_t notify) noexcept : worker_context(std::move(notify)) {}
+  explicit full_context(nullary_function_t notify) : worker_context(std::move(notify)) {}
 
   /**
    * @brief Add a task to the work queue.
-- 
2.43.0


From 48bd7d36e6c52c797b37b17e7e94433b4f4ddd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 09/14] fix: deque constructor does not leak its buffer when a
 later allocation fails

---
 include/libfork/core/ext/deque.hpp | 4 +++-
 single_header/libfork.hpp          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index 01d69ff..2bdee54 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -350,8 +350,10 @@ template <dequeable T>
 constexpr deque<T>::deque(std::ptrdiff_t cap)
     : m_top(0),
       m_bottom(0),
-      m_buf(new impl::atomic_ring_buf<T>{cap}) {
+      m_buf(nullptr) {
+  // Reserve first, if this throws the destructor does not run and the buffer would leak.
   m_garbage.reserve(k_garbage_reserve);
+  m_buf.store(new impl::atomic_ring_buf<T>{cap}, relaxed);
 }
 
 template <dequeable T>
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 7b0255c..eb0f7fa 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -1166,8 +1166,10 @@ template <dequeable T>
 constexpr deque<T>::deque(std::ptrdiff_t cap)
     : m_top(0),
       m_bottom(0),
-      m_buf(new impl::atomic_ring_buf<T>{cap}) {
+      m_buf(nullptr) {
+  // Reserve first, if this throws the destructor does not run and the buffer would leak.
   m_garbage.reserve(k_garbage_reserve);
+  m_buf.store(new impl::atomic_ring_buf<T>{cap}, relaxed);
 }
 
 template <dequeable T>
-- 
2.43.0


From 259a3c7bbab165f3a6174c34c2054d61f8dc025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:07 +0000
Subject: [PATCH 10/14] fix: numa_strategy::seq works on topologies that expose
 no packages

---
 include/libfork/schedule/ext/numa.hpp | 4 ++++
 single_header/libfork.hpp             | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/libfork/schedule/ext/numa.hpp b/include/libfork/schedule/ext/numa.hpp
index f1053e0..ab801e5 100644
--- a/include/libfork/schedule/ext/numa.hpp
+++ b/include/libfork/schedule/ext/numa.hpp
@@ -326,6 +326,10 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
       roots.push_back(next_numa);
       numa = next_numa;
     }
+
+    if (roots.empty()) { // Not every topology has packages.
+      roots.push_back(hwloc_get_root_obj(m_topology.get()));
+    }
   } else {
     roots.push_back(hwloc_get_root_obj(m_topology.get()));
   }
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index eb0f7fa..00b9125 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -6828,6 +6828,10 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
       roots.push_back(next_numa);
       numa = next_numa;
     }
+
+    if (roots.empty()) { // Not every topology has packages.
+      roots.push_back(hwloc_get_root_obj(m_topology.get()));
+    }
   } else {
     roots.push_back(hwloc_get_root_obj(m_topology.get()));
   }
-- 
2.43.0


From 10576de4ecf9036a29cb9c516cb78428196a2367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 11/14] fix: processing units without local memory do not make
 numa_topology::split fail

---
 include/libfork/schedule/ext/numa.hpp | 8 +++-----
 single_header/libfork.hpp             | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/libfork/schedule/ext/numa.hpp b/include/libfork/schedule/ext/numa.hpp
index ab801e5..53d7d06 100644
--- a/include/libfork/schedule/ext/numa.hpp
+++ b/include/libfork/schedule/ext/numa.hpp
@@ -290,12 +290,10 @@ inline auto get_numa_index(hwloc_topology *topo, hwloc_bitmap_s *bitmap) -> hwlo
     LF_THROW(hwloc_error{"failed to find an object covering a bitmap"});
   }
 
-  while (obj != nullptr && obj->memory_arity == 0) {
-    obj = obj->parent;
-  }
+  // Units may have no local memory (e.g. in a restricted cpuset), they are then identified with the root.
 
-  if (obj == nullptr) {
-    LF_THROW(hwloc_error{"failed to find a parent with memory"});
+  while (obj->memory_arity == 0 && obj->parent != nullptr) {
+    obj = obj->parent;
   }
 
   return obj->gp_index;
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 00b9125..284c73d 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -6792,12 +6792,10 @@ inline auto get_numa_index(hwloc_topology *topo, hwloc_bitmap_s *bitmap) -> hwlo
     LF_THROW(hwloc_error{"failed to find an object covering a bitmap"});
   }
 
-  while (obj != nullptr && obj->memory_arity == 0) {
-    obj = obj->parent;
-  }
+  // Units may have no local memory (e.g. in a restricted cpuset), they are then identified with the root.
 
-  if (obj == nullptr) {
-    LF_THROW(hwloc_error{"failed to find a parent with memory"});
+  while (obj->memory_arity == 0 && obj->parent != nullptr) {
+    obj = obj->parent;
   }
 
   return obj->gp_index;
-- 
2.43.0


From d5422562a4c7aca04daf367d6807e45b10f93840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:40 +0000
Subject: [PATCH 12/14] fix: co_new reports a size that overflows as bad_alloc

---
 include/libfork/core/impl/awaitables.hpp | 12 ++++++++++--
 single_header/libfork.hpp                |  9 +++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index 896ab3a..939f4f7 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -12,9 +12,12 @@
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
+#include <cstddef>     // for size_t
 #include <cstdint>     // for uint32_t
 #include <iterator>    // for iter_difference_t
+#include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
+#include <new>         // for bad_alloc
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
@@ -194,10 +197,15 @@ struct alloc_awaitable : std::suspend_never {
 
     LF_ASSERT(stack->top() == self->stacklet()); // Must own the stack.
 
-    T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
-
     using int_t = std::iter_difference_t<T *>;
 
+    // The size in bytes must not overflow.
+    if (request.count > static_cast<std::size_t>(std::numeric_limits<int_t>::max()) / sizeof(T)) {
+      LF_THROW(std::bad_alloc{});
+    }
+
+    T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
+
     // clang-format off
 
     LF_TRY {
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 284c73d..9676480 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -5262,10 +5262,15 @@ struct alloc_awaitable : std::suspend_never {
 
     LF_ASSERT(stack->top() == self->stacklet()); // Must own the stack.
 
-    T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
-
     using int_t = std::iter_difference_t<T *>;
 
+    // The size in bytes must not overflow.
+    if (request.count > static_cast<std::size_t>(std::numeric_limits<int_t>::max()) / sizeof(T)) {
+      LF_THROW(std::bad_alloc{});
+    }
+
+    T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
+
     // clang-format off
 
     LF_TRY {
-- 
2.43.0


From 0fd4b5819fc7d4bbd880423bcfcc996792749303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:23 +0000
Subject: [PATCH 13/14] fix: splitting a topology releases hwloc's sets when an
 allocation fails

---
 include/libfork/schedule/ext/numa.hpp | 5 ++++-
 single_header/libfork.hpp             | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/libfork/schedule/ext/numa.hpp b/include/libfork/schedule/ext/numa.hpp
index 53d7d06..887addf 100644
--- a/include/libfork/schedule/ext/numa.hpp
+++ b/include/libfork/schedule/ext/numa.hpp
@@ -336,6 +336,7 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
   // gives us owning pointers (not in the docs, but it does!).
 
   std::vector<hwloc_bitmap_s *> sets(n, nullptr);
+  std::vector<unique_cpup> singlets(n); // Allocated now, such that nothing can throw before the sets are owned.
 
   auto r_size = static_cast<unsigned int>(roots.size());
   auto s_size = static_cast<unsigned int>(sets.size());
@@ -345,7 +346,9 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
   }
 
   // Need ownership before map for exception safety.
-  std::vector<unique_cpup> singlets{sets.begin(), sets.end()};
+  for (std::size_t i = 0; i < n; ++i) {
+    singlets[i].reset(sets[i]);
+  }
 
   std::map<hwloc_uint64_t, std::size_t> numa_map;
 
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 9676480..07127f3 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -6843,6 +6843,7 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
   // gives us owning pointers (not in the docs, but it does!).
 
   std::vector<hwloc_bitmap_s *> sets(n, nullptr);
+  std::vector<unique_cpup> singlets(n); // Allocated now, such that nothing can throw before the sets are owned.
 
   auto r_size = static_cast<unsigned int>(roots.size());
   auto s_size = static_cast<unsigned int>(sets.size());
@@ -6852,7 +6853,9 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
   }
 
   // Need ownership before map for exception safety.
-  std::vector<unique_cpup> singlets{sets.begin(), sets.end()};
+  for (std::size_t i = 0; i < n; ++i) {
+    singlets[i].reset(sets[i]);
+  }
 
   std::map<hwloc_uint64_t, std::size_t> numa_map;
 
-- 
2.43.0


From 41cbfb47475bc55a78cd2f79f24ff31aecf91c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 14/14] fix: a pool whose list of contexts cannot be allocated
 throws bad_alloc

---
 include/libfork/schedule/busy_pool.hpp | 2 ++
 include/libfork/schedule/lazy_pool.hpp | 2 ++
 single_header/libfork.hpp              | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/include/libfork/schedule/busy_pool.hpp b/include/libfork/schedule/busy_pool.hpp
index 0983064..0041026 100644
--- a/include/libfork/schedule/busy_pool.hpp
+++ b/include/libfork/schedule/busy_pool.hpp
@@ -182,6 +182,8 @@ class busy_pool {
 
     std::vector nodes = numa_topology{}.distribute(m_worker, strategy);
 
+    m_contexts.reserve(n); // Nothing may throw once the workers are running.
+
     [&]() noexcept {
       // All workers must be created, if we fail to create them all then we must
       // terminate else the workers will hang on the start latch.
diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index c3448ed..79f5cda 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -363,6 +363,8 @@ class lazy_pool {
 
     m_share->numa = std::vector<impl::lazy_vars::fat_counters>(num_numa);
 
+    m_contexts.reserve(n); // Nothing may throw once the workers are running.
+
     [&]() noexcept {
       // All workers must be created, if we fail to create them all then we must terminate else
       // the workers will hang on the latch.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 07127f3..41c334d 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -7645,6 +7645,8 @@ class busy_pool {
 
     std::vector nodes = numa_topology{}.distribute(m_worker, strategy);
 
+    m_contexts.reserve(n); // Nothing may throw once the workers are running.
+
     [&]() noexcept {
       // All workers must be created, if we fail to create them all then we must
       // terminate else the workers will hang on the start latch.
@@ -8299,6 +8301,8 @@ class lazy_pool {
 
     m_share->numa = std::vector<impl::lazy_vars::fat_counters>(num_numa);
 
+    m_contexts.reserve(n); // Nothing may throw once the workers are running.
+
     [&]() noexcept {
       // All workers must be created, if we fail to create them all then we must terminate else
       // the workers will hang on the latch.
-- 
2.43.0

