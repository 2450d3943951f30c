From 0738df5510f6e3f0b302774c8a8dcd1d60ab6ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 01/17] fix: eager-throw dispatch must throw for return
 addresses that do not capture exceptions

The test for a stashing return address was inverted, so a non-captured
exception was swallowed (and sync reported success) while captured ones
were looked for in the frame.
---
 include/libfork/core/impl/promise.hpp | 2 +-
 single_header/libfork.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 0d0fb30..7cc10d1 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -214,7 +214,7 @@ struct promise_base : frame {
 
     awaitable->set_parent(this);
 
-    constexpr bool throwing = stash_exception_in_return<I>;
+    constexpr bool throwing = !stash_exception_in_return<I>;
 
     using enum region;
 
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 13906b5..00ddd9a 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -6156,7 +6156,7 @@ struct promise_base : frame {
 
     awaitable->set_parent(this);
 
-    constexpr bool throwing = stash_exception_in_return<I>;
+    constexpr bool throwing = !stash_exception_in_return<I>;
 
     using enum region;
 
-- 
2.43.0


From 5b86629143f9f28ebd06b160f4cf0445a646bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 02/17] fix: publish the deque's grown buffer with release
 ordering

A thief that has not yet observed the new bottom may load the new buffer
pointer; with a relaxed store its read of the buffer's plain members is a
data race.
---
 include/libfork/core/ext/deque.hpp | 3 ++-
 single_header/libfork.hpp          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index 89a488b..805688f 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -392,7 +392,8 @@ constexpr auto deque<T>::push(T const &val) -> void {
       // This should never throw as we reserve 64 slots.
       m_garbage.emplace_back(std::exchange(buf, bigger));
     }();
-    m_buf.store(buf, relaxed);
+    // A thief may load `buf` without having observed the `m_bottom` store below.
+    m_buf.store(buf, release);
   }
 
   // Construct new object, this does not have to be atomic as no one can steal this item until
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 00ddd9a..09dc1af 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -1208,7 +1208,8 @@ constexpr auto deque<T>::push(T const &val) -> void {
       // This should never throw as we reserve 64 slots.
       m_garbage.emplace_back(std::exchange(buf, bigger));
     }();
-    m_buf.store(buf, relaxed);
+    // A thief may load `buf` without having observed the `m_bottom` store below.
+    m_buf.store(buf, release);
   }
 
   // Construct new object, this does not have to be atomic as no one can steal this item until
-- 
2.43.0


From 3df5e96971a951cb772aa72ccdc0f3859c617772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 03/17] fix: take the released stack back when a scheduler
 refuses a root task

---
 include/libfork/core/sync_wait.hpp | 10 ++++++++--
 single_header/libfork.hpp          | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/libfork/core/sync_wait.hpp b/include/libfork/core/sync_wait.hpp
index 5784057..1321293 100644
--- a/include/libfork/core/sync_wait.hpp
+++ b/include/libfork/core/sync_wait.hpp
@@ -273,13 +273,19 @@ schedule(Sch &&sch, F &&fun, Args &&...args) -> future<async_result_t<F, Args...
   await->set_root_sem(&share_state->sem);
 
   // If this throws then `await` will clean up the coroutine.
-  impl::ignore_t{} = impl::tls::thread_stack->release();
+  impl::stack::stacklet *released = impl::tls::thread_stack->release();
 
   // We will pass a pointer to this to .schedule()
   share_state->node.construct(std::bit_cast<impl::submit_t *>(await.get()));
 
   // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up.
-  std::forward<Sch>(sch).schedule(share_state->node.data());
+  LF_TRY {
+    std::forward<Sch>(sch).schedule(share_state->node.data());
+  } LF_CATCH_ALL {
+    // The coroutine is on the released stack, take it back such that the coroutine can be destroyed.
+    *impl::tls::thread_stack = impl::stack{released};
+    LF_RETHROW;
+  }
   // If -^ didn't throw then we release ownership of the coroutine, it will be cleaned up by the worker.
   impl::ignore_t{} = await.release();
 
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 09dc1af..39a2dac 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -4822,13 +4822,19 @@ schedule(Sch &&sch, F &&fun, Args &&...args) -> future<async_result_t<F, Args...
   await->set_root_sem(&share_state->sem);
 
   // If this throws then `await` will clean up the coroutine.
-  impl::ignore_t{} = impl::tls::thread_stack->release();
+  impl::stack::stacklet *released = impl::tls::thread_stack->release();
 
   // We will pass a pointer to this to .schedule()
   share_state->node.construct(std::bit_cast<impl::submit_t *>(await.get()));
 
   // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up.
-  std::forward<Sch>(sch).schedule(share_state->node.data());
+  LF_TRY {
+    std::forward<Sch>(sch).schedule(share_state->node.data());
+  } LF_CATCH_ALL {
+    // The coroutine is on the released stack, take it back such that the coroutine can be destroyed.
+    *impl::tls::thread_stack = impl::stack{released};
+    LF_RETHROW;
+  }
   // If -^ didn't throw then we release ownership of the coroutine, it will be cleaned up by the worker.
   impl::ignore_t{} = await.release();
 
-- 
2.43.0


From eb7487e203bbc4b13eb8014ae40fbc266c33b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 04/17] fix: let the contexts' constructors report allocation
 failures

---
 include/libfork/core/ext/context.hpp | 4 ++--
 single_header/libfork.hpp            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libfork/core/ext/context.hpp b/include/libfork/core/ext/context.hpp
index de43258..d729fb9 100644
--- a/include/libfork/core/ext/context.hpp
+++ b/include/libfork/core/ext/context.hpp
@@ -98,7 +98,7 @@ class worker_context : impl::immovable<context> {
    * Notify is a function that may be called concurrently by other workers to signal to the
    * worker owning this context that a task has been submitted to a private queue.
    */
-  explicit worker_context(nullary_function_t notify) noexcept : m_notify(std::move(notify)) {
+  explicit worker_context(nullary_function_t notify) : m_notify(std::move(notify)) {
     LF_ASSERT(m_notify);
   }
 
@@ -128,7 +128,7 @@ class full_context : public worker_context {
   /**
    * @brief Construct a new full context object, store a copy of the user provided notification function.
    */
-  explicit full_context(nullary_function_t notify) noexcept : worker_context(std::move(notify)) {}
+  explicit full_context(nullary_function_t notify) : worker_context(std::move(notify)) {}
 
   /**
    * @brief Add a task to the work queue.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 39a2dac..cb18c8c 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -2425,7 +2425,7 @@ class worker_context : impl::immovable<context> {
    * Notify is a function that may be called concurrently by other workers to signal to the
    * worker owning this context that a task has been submitted to a private queue.
    */
-  explicit worker_context(nullary_function_t notify) noexcept : m_notify(std::move(notify)) {
+  explicit worker_context(nullary_function_t notify) : m_notify(std::move(notify)) {
     LF_ASSERT(m_notify);
   }
 
@@ -2455,7 +2455,7 @@ class full_context : public worker_context {
   /**
    * @brief Construct a new full context object, store a copy of the user provided notification function.
    */
-  explicit full_context(nullary_function_t notify) noexcept : worker_context(std::move(notify)) {}
+  explicit full_context(nullary_function_t notify) : worker_context(std::move(notify)) {}
 
   /**
    * @brief Add a task to the work queue.
-- 
2.43.0


From 460bf9d37ff2c4f991ba1cf08358ccc68da8a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 05/17] fix: do not leak the deque's buffer when reserving the
 garbage list fails

---
 include/libfork/core/ext/deque.hpp | 4 +++-
 single_header/libfork.hpp          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index 805688f..95bc8dd 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -350,8 +350,10 @@ template <dequeable T>
 constexpr deque<T>::deque(std::ptrdiff_t cap)
     : m_top(0),
       m_bottom(0),
-      m_buf(new impl::atomic_ring_buf<T>{cap}) {
+      m_buf(nullptr) {
+  // Reserve first, if this throws then there is no buffer to leak.
   m_garbage.reserve(k_garbage_reserve);
+  m_buf.store(new impl::atomic_ring_buf<T>{cap}, relaxed); // NOLINT
 }
 
 template <dequeable T>
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index cb18c8c..9b499ea 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -1166,8 +1166,10 @@ template <dequeable T>
 constexpr deque<T>::deque(std::ptrdiff_t cap)
     : m_top(0),
       m_bottom(0),
-      m_buf(new impl::atomic_ring_buf<T>{cap}) {
+      m_buf(nullptr) {
+  // Reserve first, if this throws then there is no buffer to leak.
   m_garbage.reserve(k_garbage_reserve);
+  m_buf.store(new impl::atomic_ring_buf<T>{cap}, relaxed); // NOLINT
 }
 
 template <dequeable T>
-- 
2.43.0


From caf526e8c64ce99e5f597c1194ad2e164143c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 06/17] fix: worker_init must rethrow when the stack cannot be
 allocated

---
 include/libfork/core/ext/tls.hpp | 1 +
 single_header/libfork.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/libfork/core/ext/tls.hpp b/include/libfork/core/ext/tls.hpp
index eaae831..b1b4937 100644
--- a/include/libfork/core/ext/tls.hpp
+++ b/include/libfork/core/ext/tls.hpp
@@ -111,6 +111,7 @@ inline namespace ext {
     impl::tls::thread_stack.construct();
   } LF_CATCH_ALL {
     impl::tls::thread_context.destroy();
+    LF_RETHROW;
   }
 
   impl::tls::has_stack = true;
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 9b499ea..bc4af44 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -2581,6 +2581,7 @@ inline namespace ext {
     impl::tls::thread_stack.construct();
   } LF_CATCH_ALL {
     impl::tls::thread_context.destroy();
+    LF_RETHROW;
   }
 
   impl::tls::has_stack = true;
-- 
2.43.0


From c1ebb22326a0eb4e816402391b0d00bec18ca884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 07/17] hook: LF_VERIF_STEAL_ATTEMPTS shortens the pools'
 search for work in verification builds

---
 include/libfork/schedule/impl/numa_context.hpp | 5 +++++
 single_header/libfork.hpp                      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/libfork/schedule/impl/numa_context.hpp b/include/libfork/schedule/impl/numa_context.hpp
index 53f0669..2a2fda8 100644
--- a/include/libfork/schedule/impl/numa_context.hpp
+++ b/include/libfork/schedule/impl/numa_context.hpp
@@ -40,6 +40,10 @@ namespace lf::impl {
 template <typename Shared>
 struct numa_context {
  private:
+#ifdef LF_VERIF_STEAL_ATTEMPTS // Verification builds shorten the search for work.
+  static constexpr std::size_t k_min_steal_attempts = LF_VERIF_STEAL_ATTEMPTS;
+  static constexpr std::size_t k_steal_attempts_per_target = 0;
+#else
   /**
    * @brief The minimum number of steal attempts we will make per `try_steal` operation.
    */
@@ -48,6 +52,7 @@ struct numa_context {
    * @brief The number of steal attempts we will make per target in a `try_steal` operation.
    */
   static constexpr std::size_t k_steal_attempts_per_target = 32;
+#endif
   /**
    * @brief Thread-local RNG.
    */
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index bc4af44..66dc2a7 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -7291,6 +7291,10 @@ namespace lf::impl {
 template <typename Shared>
 struct numa_context {
  private:
+#ifdef LF_VERIF_STEAL_ATTEMPTS // Verification builds shorten the search for work.
+  static constexpr std::size_t k_min_steal_attempts = LF_VERIF_STEAL_ATTEMPTS;
+  static constexpr std::size_t k_steal_attempts_per_target = 0;
+#else
   /**
    * @brief The minimum number of steal attempts we will make per `try_steal` operation.
    */
@@ -7299,6 +7303,7 @@ struct numa_context {
    * @brief The number of steal attempts we will make per target in a `try_steal` operation.
    */
   static constexpr std::size_t k_steal_attempts_per_target = 32;
+#endif
   /**
    * @brief Thread-local RNG.
    */
-- 
2.43.0


From bcff6f83fe58f3bc0b80e2393c90cadd6780a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 08/17] fix: numa_strategy::seq must work on topologies without
 packages

---
 include/libfork/schedule/ext/numa.hpp | 5 +++++
 single_header/libfork.hpp             | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/libfork/schedule/ext/numa.hpp b/include/libfork/schedule/ext/numa.hpp
index f1053e0..77fc724 100644
--- a/include/libfork/schedule/ext/numa.hpp
+++ b/include/libfork/schedule/ext/numa.hpp
@@ -326,6 +326,11 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
       roots.push_back(next_numa);
       numa = next_numa;
     }
+
+    // Not all systems report packages.
+    if (roots.empty()) {
+      roots.push_back(hwloc_get_root_obj(m_topology.get()));
+    }
   } else {
     roots.push_back(hwloc_get_root_obj(m_topology.get()));
   }
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 66dc2a7..78dfa24 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -6829,6 +6829,11 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
       roots.push_back(next_numa);
       numa = next_numa;
     }
+
+    // Not all systems report packages.
+    if (roots.empty()) {
+      roots.push_back(hwloc_get_root_obj(m_topology.get()));
+    }
   } else {
     roots.push_back(hwloc_get_root_obj(m_topology.get()));
   }
-- 
2.43.0


From f288fa42b075f95ce8abb9b069ae888e0fd684e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 09/17] fix: moved-from pools can be destroyed, assigning to a
 pool stops its workers

---
 include/libfork/schedule/busy_pool.hpp | 13 ++++++++++++-
 include/libfork/schedule/lazy_pool.hpp | 13 ++++++++++++-
 single_header/libfork.hpp              | 26 ++++++++++++++++++++++++--
 3 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/include/libfork/schedule/busy_pool.hpp b/include/libfork/schedule/busy_pool.hpp
index df1d676..17d9ab1 100644
--- a/include/libfork/schedule/busy_pool.hpp
+++ b/include/libfork/schedule/busy_pool.hpp
@@ -145,7 +145,13 @@ class busy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(busy_pool &&other) noexcept -> busy_pool & = default;
+  auto operator=(busy_pool &&other) noexcept -> busy_pool & {
+    if (this != &other) {
+      std::destroy_at(this); // Stops our workers.
+      std::construct_at(this, std::move(other));
+    }
+    return *this;
+  }
   /**
    * @brief The busy pool is not copy assignable.
    */
@@ -199,6 +205,11 @@ class busy_pool {
   auto contexts() noexcept -> std::span<worker_context *> { return m_contexts; }
 
   ~busy_pool() noexcept {
+
+    if (!m_share) {
+      return; // We have been moved from.
+    }
+
     LF_LOG("Requesting a stop");
     // Set conditions for workers to stop
     m_share->stop.test_and_set(std::memory_order_release);
diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index ef43035..443a0bd 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -312,7 +312,13 @@ class lazy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & = default;
+  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & {
+    if (this != &other) {
+      std::destroy_at(this); // Stops our workers.
+      std::construct_at(this, std::move(other));
+    }
+    return *this;
+  }
   /**
    * @brief The lazy pool is not copy assignable.
    */
@@ -379,6 +385,11 @@ class lazy_pool {
    * @brief Destroy the lazy pool object, stops all workers.
    */
   ~lazy_pool() noexcept {
+
+    if (!m_share) {
+      return; // We have been moved from.
+    }
+
     LF_LOG("Requesting a stop");
 
     // Set conditions for workers to stop.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 78dfa24..0da777d 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -7609,7 +7609,13 @@ class busy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(busy_pool &&other) noexcept -> busy_pool & = default;
+  auto operator=(busy_pool &&other) noexcept -> busy_pool & {
+    if (this != &other) {
+      std::destroy_at(this); // Stops our workers.
+      std::construct_at(this, std::move(other));
+    }
+    return *this;
+  }
   /**
    * @brief The busy pool is not copy assignable.
    */
@@ -7663,6 +7669,11 @@ class busy_pool {
   auto contexts() noexcept -> std::span<worker_context *> { return m_contexts; }
 
   ~busy_pool() noexcept {
+
+    if (!m_share) {
+      return; // We have been moved from.
+    }
+
     LF_LOG("Requesting a stop");
     // Set conditions for workers to stop
     m_share->stop.test_and_set(std::memory_order_release);
@@ -8226,7 +8237,13 @@ class lazy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & = default;
+  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & {
+    if (this != &other) {
+      std::destroy_at(this); // Stops our workers.
+      std::construct_at(this, std::move(other));
+    }
+    return *this;
+  }
   /**
    * @brief The lazy pool is not copy assignable.
    */
@@ -8293,6 +8310,11 @@ class lazy_pool {
    * @brief Destroy the lazy pool object, stops all workers.
    */
   ~lazy_pool() noexcept {
+
+    if (!m_share) {
+      return; // We have been moved from.
+    }
+
     LF_LOG("Requesting a stop");
 
     // Set conditions for workers to stop.
-- 
2.43.0


From b63aef19ac84ae062e9c245757516dc18bd7e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 10/17] fix: a stopping lazy_pool worker must not drop a job
 submitted just before the stop

---
 include/libfork/schedule/lazy_pool.hpp | 4 ++++
 single_header/libfork.hpp              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index 443a0bd..51baed6 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -242,6 +242,10 @@ wake_up:
     my_numa_vars.notifier.cancel_wait();
     my_numa_vars.notifier.notify_all();
     my_numa_vars.thief.fetch_sub(1, release);
+    // A job could have been submitted (before `stop` was set) after we last checked.
+    while (auto *submission = my_context->try_pop_all()) {
+      resume(submission);
+    }
     return;
   }
 
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 0da777d..26d991f 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -8167,6 +8167,10 @@ wake_up:
     my_numa_vars.notifier.cancel_wait();
     my_numa_vars.notifier.notify_all();
     my_numa_vars.thief.fetch_sub(1, release);
+    // A job could have been submitted (before `stop` was set) after we last checked.
+    while (auto *submission = my_context->try_pop_all()) {
+      resume(submission);
+    }
     return;
   }
 
-- 
2.43.0


From c24191675b6499e70749a8ae8bf048464701a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 11/17] fix: a task taking another task's first argument as its
 first parameter was ill-formed

The member-function specialization of coroutine_traits also matched a coroutine
whose first user argument is a first_arg (as in passing `self` to a higher-order
task), which made the specializations ambiguous.
---
 include/libfork/core/impl/promise.hpp | 1 +
 single_header/libfork.hpp             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 7cc10d1..0517f8d 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -443,6 +443,7 @@ inline constexpr bool safe_fork_v = detail::safe_fork<Tag, FromList, ToList>::va
  * that it is not an r-value reference.
  */
 template <lf::returnable R, typename This, lf::impl::first_arg_specialization Head, typename... Tail>
+  requires (!lf::impl::first_arg_specialization<This>)
 struct std::coroutine_traits<lf::task<R>, This, Head, Tail...>
     : std::coroutine_traits<lf::task<R>, Head, Tail..., This> {};
 
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 26d991f..cd13e98 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -6395,6 +6395,7 @@ inline constexpr bool safe_fork_v = detail::safe_fork<Tag, FromList, ToList>::va
  * that it is not an r-value reference.
  */
 template <lf::returnable R, typename This, lf::impl::first_arg_specialization Head, typename... Tail>
+  requires (!lf::impl::first_arg_specialization<This>)
 struct std::coroutine_traits<lf::task<R>, This, Head, Tail...>
     : std::coroutine_traits<lf::task<R>, Head, Tail..., This> {};
 
-- 
2.43.0


From 76ffb5c4adda0fba7f499700adae021e4e5e01a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 12/17] fix: co_new must throw when the number of bytes
 overflows

co_new<T>(n) with n * sizeof(T) larger than the address space wrapped around
and returned a span over memory that was never allocated.
---
 include/libfork/core/impl/awaitables.hpp | 11 ++++++++++-
 single_header/libfork.hpp                | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index a7859b1..0ffba83 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -12,9 +12,11 @@
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
-#include <cstdint>     // for uint16_t
+#include <cstddef>     // for size_t
+#include <cstdint>     // for uint16_t, PTRDIFF_MAX
 #include <iterator>    // for iter_difference_t
 #include <memory>      // for operator==, uninitialized_default_construct_n
+#include <new>         // for bad_array_new_length
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
@@ -187,6 +189,8 @@ template <co_allocable T>
 struct alloc_awaitable : std::suspend_never {
   /**
    * @brief Return a handle to the memory.
+   *
+   * Throws `std::bad_alloc` (or a type derived from it) if the memory cannot be allocated.
    */
   [[nodiscard]] auto await_resume() const -> stack_allocated<T> {
 
@@ -194,6 +198,11 @@ struct alloc_awaitable : std::suspend_never {
 
     LF_ASSERT(stack->top() == self->stacklet()); // Must own the stack.
 
+    // The number of bytes must not overflow.
+    if (request.count > static_cast<std::size_t>(PTRDIFF_MAX) / sizeof(T)) {
+      LF_THROW(std::bad_array_new_length());
+    }
+
     T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
 
     using int_t = std::iter_difference_t<T *>;
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index cd13e98..1adeefd 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -5095,9 +5095,11 @@ using extern_ret_ptr_t = typename detail::extern_ret_ptr_impl<R>::type;
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
-#include <cstdint>     // for uint16_t
+#include <cstddef>     // for size_t
+#include <cstdint>     // for uint16_t, PTRDIFF_MAX
 #include <iterator>    // for iter_difference_t
 #include <memory>      // for operator==, uninitialized_default_construct_n
+#include <new>         // for bad_array_new_length
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
@@ -5256,6 +5258,8 @@ template <co_allocable T>
 struct alloc_awaitable : std::suspend_never {
   /**
    * @brief Return a handle to the memory.
+   *
+   * Throws `std::bad_alloc` (or a type derived from it) if the memory cannot be allocated.
    */
   [[nodiscard]] auto await_resume() const -> stack_allocated<T> {
 
@@ -5263,6 +5267,11 @@ struct alloc_awaitable : std::suspend_never {
 
     LF_ASSERT(stack->top() == self->stacklet()); // Must own the stack.
 
+    // The number of bytes must not overflow.
+    if (request.count > static_cast<std::size_t>(PTRDIFF_MAX) / sizeof(T)) {
+      LF_THROW(std::bad_array_new_length());
+    }
+
     T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
 
     using int_t = std::iter_difference_t<T *>;
-- 
2.43.0


From 64ff9cf49bdbc7d4218c1e38c2df96ec7e83a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 13/17] fix: count steals and joins in 32 bits

A scope whose continuation was stolen more than 65534 times overflowed the
16 bit counters: the join was lost or taken twice.
---
 include/libfork/core/impl/awaitables.hpp | 30 ++++++------
 include/libfork/core/impl/frame.hpp      | 20 ++++----
 include/libfork/core/impl/promise.hpp    |  4 +-
 include/libfork/core/impl/utility.hpp    |  4 +-
 single_header/libfork.hpp                | 58 ++++++++++++------------
 5 files changed, 58 insertions(+), 58 deletions(-)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index 0ffba83..f347a4e 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -13,7 +13,7 @@
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
 #include <cstddef>     // for size_t
-#include <cstdint>     // for uint16_t, PTRDIFF_MAX
+#include <cstdint>     // for uint32_t, PTRDIFF_MAX
 #include <iterator>    // for iter_difference_t
 #include <memory>      // for operator==, uninitialized_default_construct_n
 #include <new>         // for bad_array_new_length
@@ -30,7 +30,7 @@
 #include "libfork/core/impl/frame.hpp"        // for frame
 #include "libfork/core/impl/stack.hpp"        // for stack
 #include "libfork/core/impl/unique_frame.hpp" // for unique_frame, frame_deleter
-#include "libfork/core/impl/utility.hpp"      // for k_u16_max, checked_cast
+#include "libfork/core/impl/utility.hpp"      // for k_u32_max, checked_cast
 #include "libfork/core/invocable.hpp"         // for ignore_t
 #include "libfork/core/macro.hpp"             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW
 #include "libfork/core/scheduler.hpp"         // for context_switcher
@@ -112,7 +112,7 @@ struct context_switch_awaitable {
     // steals then we do not own the stack this coroutine is on and the resumer should not
     // take the stack otherwise, we should give-it-up and the resumer should take it.
 
-    std::uint16_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
+    std::uint32_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
 
     // Assert the above paragraphs validity.
 #ifndef NDEBUG
@@ -311,7 +311,7 @@ struct sync_fork_awaitable : fork_awaitable {
     // must not have thrown an exception. We can check if __some__ child threw an
     // exception but we cannot (generally) retrieve it as exception is not safe
     // to touch until after a join.
-    if (std::uint16_t steals_post = self->load_steals(); steals_post == steals_pre) {
+    if (std::uint32_t steals_post = self->load_steals(); steals_post == steals_pre) {
 
       // Then completed synchronously.
 
@@ -338,7 +338,7 @@ struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief The number of times the parent was stolen __before__ the fork.
    */
-  std::uint16_t steals_pre;
+  std::uint32_t steals_pre;
 };
 
 /**
@@ -438,14 +438,14 @@ struct join_awaitable {
       // Therefore no need to reset the control block.
       return true;
     }
-    // Currently:            joins() = k_u16_max - num_joined
-    // Hence:       k_u16_max - joins() = num_joined
+    // Currently:            joins() = k_u32_max - num_joined
+    // Hence:       k_u32_max - joins() = num_joined
 
     // Could use (relaxed) + (fence(acquire) in truthy branch) but, it's
     // better if we see all the decrements to joins() and avoid suspending
     // the coroutine if possible. Cannot fetch_sub() here and write to frame
     // as coroutine must be suspended first.
-    auto joined = k_u16_max - self->load_joins(std::memory_order_acquire);
+    auto joined = k_u32_max - self->load_joins(std::memory_order_acquire);
 
     if (self->load_steals() == joined) {
       LF_LOG("Sync is ready");
@@ -461,17 +461,17 @@ struct join_awaitable {
    * @brief Mark at join point then yield to scheduler or resume if children are done.
    */
   auto await_suspend(std::coroutine_handle<> task) const noexcept -> std::coroutine_handle<> {
-    // Currently        joins  = k_u16_max  - num_joined
-    // We set           joins  = joins()    - (k_u16_max - num_steals)
+    // Currently        joins  = k_u32_max  - num_joined
+    // We set           joins  = joins()    - (k_u32_max - num_steals)
     //                         = num_steals - num_joined
 
-    // Hence               joined = k_u16_max - num_joined
-    //         k_u16_max - joined = num_joined
+    // Hence               joined = k_u32_max - num_joined
+    //         k_u32_max - joined = num_joined
 
     auto steals = self->load_steals();
-    auto joined = self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release);
+    auto joined = self->fetch_sub_joins(k_u32_max - steals, std::memory_order_release);
 
-    if (steals == k_u16_max - joined) {
+    if (steals == k_u32_max - joined) {
       // We set joins after all children had completed therefore we can resume the task.
       // Need to acquire to ensure we see all writes by other threads to the result.
       std::atomic_thread_fence(std::memory_order_acquire);
@@ -500,7 +500,7 @@ struct join_awaitable {
     LF_LOG("join resumes");
     // Check we have been reset.
     LF_ASSERT(self->load_steals() == 0);
-    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u16_max);
+    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u32_max);
     LF_ASSERT(self->stacklet() == tls::stack()->top());
 
     self->unsafe_rethrow_if_exception();
diff --git a/include/libfork/core/impl/frame.hpp b/include/libfork/core/impl/frame.hpp
index 7a4ec84..37d2c03 100644
--- a/include/libfork/core/impl/frame.hpp
+++ b/include/libfork/core/impl/frame.hpp
@@ -9,9 +9,9 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <atomic>      // for atomic_ref, memory_order, atomic_uint16_t
+#include <atomic>      // for atomic_ref, memory_order, atomic_uint32_t
 #include <coroutine>   // for coroutine_handle
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <exception>   // for exception_ptr, operator==, current_exce...
 #include <memory>      // for construct_at
 #include <semaphore>   // for binary_semaphore
@@ -22,7 +22,7 @@
 #include "libfork/core/defer.hpp"                // for LF_DEFER
 #include "libfork/core/impl/manual_lifetime.hpp" // for manual_lifetime
 #include "libfork/core/impl/stack.hpp"           // for stack
-#include "libfork/core/impl/utility.hpp"         // for non_null, k_u16_max
+#include "libfork/core/impl/utility.hpp"         // for non_null, k_u32_max
 #include "libfork/core/macro.hpp"                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
 
 /**
@@ -70,11 +70,11 @@ class frame {
   /**
    * @brief  Number of children joined (with offset).
    */
-  std::atomic_uint16_t m_join = k_u16_max;
+  std::atomic_uint32_t m_join = k_u32_max;
   /**
    * @brief Number of times this frame has been stolen.
    */
-  std::uint16_t m_steal = 0;
+  std::uint32_t m_steal = 0;
 
 /**
  * @brief Flag to indicate if an exception has been set.
@@ -179,26 +179,26 @@ class frame {
   /**
    * @brief Perform a `.load(order)` on the atomic join counter.
    */
-  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint16_t {
+  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint32_t {
     return m_join.load(order);
   }
 
   /**
    * @brief Perform a `.fetch_sub(val, order)` on the atomic join counter.
    */
-  auto fetch_sub_joins(std::uint16_t val, std::memory_order order) noexcept -> std::uint16_t {
+  auto fetch_sub_joins(std::uint32_t val, std::memory_order order) noexcept -> std::uint32_t {
     return m_join.fetch_sub(val, order);
   }
 
   /**
    * @brief Get the number of times this frame has been stolen.
    */
-  [[nodiscard]] auto load_steals() const noexcept -> std::uint16_t { return m_steal; }
+  [[nodiscard]] auto load_steals() const noexcept -> std::uint32_t { return m_steal; }
 
   /**
    * @brief Increase the steal counter by one and return the previous value.
    */
-  auto fetch_add_steal() noexcept -> std::uint16_t { return m_steal++; }
+  auto fetch_add_steal() noexcept -> std::uint32_t { return m_steal++; }
 
   /**
    * @brief Reset the join and steal counters, must be outside a fork-join region.
@@ -211,7 +211,7 @@ class frame {
     // Use construct_at(...) to set non-atomically as we know we are the
     // only thread who can touch this control block until a steal which
     // would provide the required memory synchronization.
-    std::construct_at(&m_join, k_u16_max);
+    std::construct_at(&m_join, k_u32_max);
   }
 
   /**
diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 0517f8d..9703e81 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -28,7 +28,7 @@
 #include "libfork/core/impl/frame.hpp"      // for frame
 #include "libfork/core/impl/return.hpp"     // for return_result
 #include "libfork/core/impl/stack.hpp"      // for stack
-#include "libfork/core/impl/utility.hpp"    // for byte_cast, k_u16_max
+#include "libfork/core/impl/utility.hpp"    // for byte_cast, k_u32_max
 #include "libfork/core/invocable.hpp"       // for return_address_for, ignore_t
 #include "libfork/core/just.hpp"            // for just_awaitable, just_wrapped
 #include "libfork/core/macro.hpp"           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...
@@ -306,7 +306,7 @@ struct promise : promise_base, return_result<R, I> {
     // Completing a non-root task means we currently own the stack_stack this child is on
 
     LF_ASSERT(this->load_steals() == 0);                                           // Fork without join.
-    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u16_max); // Invalid state.
+    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u32_max); // Invalid state.
     LF_ASSERT(!this->unsafe_has_exception());                                      // Must have rethrown.
 
     return final_awaitable{};
diff --git a/include/libfork/core/impl/utility.hpp b/include/libfork/core/impl/utility.hpp
index e966623..489adc2 100644
--- a/include/libfork/core/impl/utility.hpp
+++ b/include/libfork/core/impl/utility.hpp
@@ -12,7 +12,7 @@
 #include <bit>             // for bit_cast, has_single_bit
 #include <concepts>        // for same_as, integral, convertible_to
 #include <cstddef>         // for byte, size_t
-#include <cstdint>         // for uint16_t
+#include <cstdint>         // for uint32_t
 #include <cstdio>          // for fprintf, stderr
 #include <exception>       // for terminate
 #include <functional>      // for invoke
@@ -96,7 +96,7 @@ static_assert(std::has_single_bit(k_new_align));
 /**
  * @brief Shorthand for `std::numeric_limits<std::unt32_t>::max()`.
  */
-static constexpr std::uint16_t k_u16_max = std::numeric_limits<std::uint16_t>::max();
+static constexpr std::uint32_t k_u32_max = std::numeric_limits<std::uint32_t>::max();
 
 /**
  * @brief A dependent value to emulate `static_assert(false)` pre c++26.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 1adeefd..88a027e 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -566,7 +566,7 @@ LF_FORCEINLINE inline void thread_fence_seq_cst() {
 #include <bit>             // for bit_cast, has_single_bit
 #include <concepts>        // for same_as, integral, convertible_to
 #include <cstddef>         // for byte, size_t
-#include <cstdint>         // for uint16_t
+#include <cstdint>         // for uint32_t
 #include <cstdio>          // for fprintf, stderr
 #include <exception>       // for terminate
 #include <functional>      // for invoke
@@ -649,7 +649,7 @@ static_assert(std::has_single_bit(k_new_align));
 /**
  * @brief Shorthand for `std::numeric_limits<std::unt32_t>::max()`.
  */
-static constexpr std::uint16_t k_u16_max = std::numeric_limits<std::uint16_t>::max();
+static constexpr std::uint32_t k_u32_max = std::numeric_limits<std::uint32_t>::max();
 
 /**
  * @brief A dependent value to emulate `static_assert(false)` pre c++26.
@@ -1441,9 +1441,9 @@ class intrusive_list : impl::immovable<intrusive_list<T>> {
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <atomic>      // for atomic_ref, memory_order, atomic_uint16_t
+#include <atomic>      // for atomic_ref, memory_order, atomic_uint32_t
 #include <coroutine>   // for coroutine_handle
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <exception>   // for exception_ptr, operator==, current_exce...
 #include <memory>      // for construct_at
 #include <semaphore>   // for binary_semaphore
@@ -2003,7 +2003,7 @@ class stack {
 
 #endif /* F7577AB3_0439_404D_9D98_072AB84FBCD0 */
 
-           // for stack         // for non_null, k_u16_max                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
+           // for stack         // for non_null, k_u32_max                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
 
 /**
  * @file frame.hpp
@@ -2050,11 +2050,11 @@ class frame {
   /**
    * @brief  Number of children joined (with offset).
    */
-  std::atomic_uint16_t m_join = k_u16_max;
+  std::atomic_uint32_t m_join = k_u32_max;
   /**
    * @brief Number of times this frame has been stolen.
    */
-  std::uint16_t m_steal = 0;
+  std::uint32_t m_steal = 0;
 
 /**
  * @brief Flag to indicate if an exception has been set.
@@ -2159,26 +2159,26 @@ class frame {
   /**
    * @brief Perform a `.load(order)` on the atomic join counter.
    */
-  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint16_t {
+  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint32_t {
     return m_join.load(order);
   }
 
   /**
    * @brief Perform a `.fetch_sub(val, order)` on the atomic join counter.
    */
-  auto fetch_sub_joins(std::uint16_t val, std::memory_order order) noexcept -> std::uint16_t {
+  auto fetch_sub_joins(std::uint32_t val, std::memory_order order) noexcept -> std::uint32_t {
     return m_join.fetch_sub(val, order);
   }
 
   /**
    * @brief Get the number of times this frame has been stolen.
    */
-  [[nodiscard]] auto load_steals() const noexcept -> std::uint16_t { return m_steal; }
+  [[nodiscard]] auto load_steals() const noexcept -> std::uint32_t { return m_steal; }
 
   /**
    * @brief Increase the steal counter by one and return the previous value.
    */
-  auto fetch_add_steal() noexcept -> std::uint16_t { return m_steal++; }
+  auto fetch_add_steal() noexcept -> std::uint32_t { return m_steal++; }
 
   /**
    * @brief Reset the join and steal counters, must be outside a fork-join region.
@@ -2191,7 +2191,7 @@ class frame {
     // Use construct_at(...) to set non-atomically as we know we are the
     // only thread who can touch this control block until a steal which
     // would provide the required memory synchronization.
-    std::construct_at(&m_join, k_u16_max);
+    std::construct_at(&m_join, k_u32_max);
   }
 
   /**
@@ -5096,14 +5096,14 @@ using extern_ret_ptr_t = typename detail::extern_ret_ptr_impl<R>::type;
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
 #include <cstddef>     // for size_t
-#include <cstdint>     // for uint16_t, PTRDIFF_MAX
+#include <cstdint>     // for uint32_t, PTRDIFF_MAX
 #include <iterator>    // for iter_difference_t
 #include <memory>      // for operator==, uninitialized_default_construct_n
 #include <new>         // for bad_array_new_length
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
-          // for co_allocable, co_new_t, stack_allocated        // for exception_before_join       // for full_context       // for submit_handle, submit_node_t, task_handle          // for unwrap           // for stack, context        // for frame        // for stack // for unique_frame, frame_deleter      // for k_u16_max, checked_cast         // for ignore_t             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW         // for context_switcher               // for region
+          // for co_allocable, co_new_t, stack_allocated        // for exception_before_join       // for full_context       // for submit_handle, submit_node_t, task_handle          // for unwrap           // for stack, context        // for frame        // for stack // for unique_frame, frame_deleter      // for k_u32_max, checked_cast         // for ignore_t             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW         // for context_switcher               // for region
 
 /**
  * @file awaitables.hpp
@@ -5181,7 +5181,7 @@ struct context_switch_awaitable {
     // steals then we do not own the stack this coroutine is on and the resumer should not
     // take the stack otherwise, we should give-it-up and the resumer should take it.
 
-    std::uint16_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
+    std::uint32_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
 
     // Assert the above paragraphs validity.
 #ifndef NDEBUG
@@ -5380,7 +5380,7 @@ struct sync_fork_awaitable : fork_awaitable {
     // must not have thrown an exception. We can check if __some__ child threw an
     // exception but we cannot (generally) retrieve it as exception is not safe
     // to touch until after a join.
-    if (std::uint16_t steals_post = self->load_steals(); steals_post == steals_pre) {
+    if (std::uint32_t steals_post = self->load_steals(); steals_post == steals_pre) {
 
       // Then completed synchronously.
 
@@ -5407,7 +5407,7 @@ struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief The number of times the parent was stolen __before__ the fork.
    */
-  std::uint16_t steals_pre;
+  std::uint32_t steals_pre;
 };
 
 /**
@@ -5507,14 +5507,14 @@ struct join_awaitable {
       // Therefore no need to reset the control block.
       return true;
     }
-    // Currently:            joins() = k_u16_max - num_joined
-    // Hence:       k_u16_max - joins() = num_joined
+    // Currently:            joins() = k_u32_max - num_joined
+    // Hence:       k_u32_max - joins() = num_joined
 
     // Could use (relaxed) + (fence(acquire) in truthy branch) but, it's
     // better if we see all the decrements to joins() and avoid suspending
     // the coroutine if possible. Cannot fetch_sub() here and write to frame
     // as coroutine must be suspended first.
-    auto joined = k_u16_max - self->load_joins(std::memory_order_acquire);
+    auto joined = k_u32_max - self->load_joins(std::memory_order_acquire);
 
     if (self->load_steals() == joined) {
       LF_LOG("Sync is ready");
@@ -5530,17 +5530,17 @@ struct join_awaitable {
    * @brief Mark at join point then yield to scheduler or resume if children are done.
    */
   auto await_suspend(std::coroutine_handle<> task) const noexcept -> std::coroutine_handle<> {
-    // Currently        joins  = k_u16_max  - num_joined
-    // We set           joins  = joins()    - (k_u16_max - num_steals)
+    // Currently        joins  = k_u32_max  - num_joined
+    // We set           joins  = joins()    - (k_u32_max - num_steals)
     //                         = num_steals - num_joined
 
-    // Hence               joined = k_u16_max - num_joined
-    //         k_u16_max - joined = num_joined
+    // Hence               joined = k_u32_max - num_joined
+    //         k_u32_max - joined = num_joined
 
     auto steals = self->load_steals();
-    auto joined = self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release);
+    auto joined = self->fetch_sub_joins(k_u32_max - steals, std::memory_order_release);
 
-    if (steals == k_u16_max - joined) {
+    if (steals == k_u32_max - joined) {
       // We set joins after all children had completed therefore we can resume the task.
       // Need to acquire to ensure we see all writes by other threads to the result.
       std::atomic_thread_fence(std::memory_order_acquire);
@@ -5569,7 +5569,7 @@ struct join_awaitable {
     LF_LOG("join resumes");
     // Check we have been reset.
     LF_ASSERT(self->load_steals() == 0);
-    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u16_max);
+    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u32_max);
     LF_ASSERT(self->stacklet() == tls::stack()->top());
 
     self->unsafe_rethrow_if_exception();
@@ -5995,7 +5995,7 @@ struct return_result<void, discard_t> {
 
 #endif /* A896798B_7E3B_4854_9997_89EA5AE765EB */
 
-     // for return_result      // for stack    // for byte_cast, k_u16_max       // for return_address_for, ignore_t            // for just_awaitable, just_wrapped           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...       // for context_switcher             // for tag            // for returnable, task
+     // for return_result      // for stack    // for byte_cast, k_u32_max       // for return_address_for, ignore_t            // for just_awaitable, just_wrapped           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...       // for context_switcher             // for tag            // for returnable, task
 
 /**
  * @file promise.hpp
@@ -6267,7 +6267,7 @@ struct promise : promise_base, return_result<R, I> {
     // Completing a non-root task means we currently own the stack_stack this child is on
 
     LF_ASSERT(this->load_steals() == 0);                                           // Fork without join.
-    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u16_max); // Invalid state.
+    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u32_max); // Invalid state.
     LF_ASSERT(!this->unsafe_has_exception());                                      // Must have rethrown.
 
     return final_awaitable{};
-- 
2.43.0


From 7acd0ae5a397c8ed06f229cda67ed87ee8fef474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 14/17] fix: reject arguments converted to a temporary that a
 reference parameter would bind to

The temporary is destroyed before the (lazily started) coroutine runs.
---
 include/libfork/core/impl/promise.hpp | 24 ++++++++++++++++++++++++
 single_header/libfork.hpp             | 24 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 9703e81..fb3708b 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -404,16 +404,40 @@ template <typename From, typename To>
   requires std::convertible_to<From &, To &>
 struct safe_fork_t<From &, To const &> : std::true_type {};
 
+/**
+ * @brief Test if a parameter of type `To` would bind to a temporary made by converting the argument.
+ *
+ * Such a temporary is destroyed before the coroutine starts.
+ */
+template <typename From, typename To>
+inline constexpr bool binds_temporary_v =
+#ifndef __has_builtin
+    false;
+#elif __has_builtin(__reference_converts_from_temporary)
+    __reference_converts_from_temporary(To, From);
+#elif __has_builtin(__reference_binds_to_temporary)
+    __reference_binds_to_temporary(To, From);
+#else
+    false;
+#endif
+
 /**
  * @brief Triggers a static assert if a conversion may dangle.
  */
 template <tag, typename, typename>
 struct safe_fork : std::true_type {};
 
+// All tags.
+template <tag Tag, typename From, typename... A, typename To, typename... B>
+struct safe_fork<Tag, list<From, A...>, list<To, B...>> : safe_fork<Tag, list<A...>, list<B...>> {
+  static_assert(!binds_temporary_v<From, To>, "Converted argument will dangle");
+};
+
 // General case.
 template <typename From, typename... A, typename To, typename... B>
 struct safe_fork<tag::fork, list<From, A...>, list<To, B...>> : safe_fork<tag::fork, list<A...>, list<B...>> {
   static_assert(safe_fork_t<From, To>::value);
+  static_assert(!binds_temporary_v<From, To>, "Converted argument will dangle");
 };
 
 /**
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 88a027e..4450324 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -6365,16 +6365,40 @@ template <typename From, typename To>
   requires std::convertible_to<From &, To &>
 struct safe_fork_t<From &, To const &> : std::true_type {};
 
+/**
+ * @brief Test if a parameter of type `To` would bind to a temporary made by converting the argument.
+ *
+ * Such a temporary is destroyed before the coroutine starts.
+ */
+template <typename From, typename To>
+inline constexpr bool binds_temporary_v =
+#ifndef __has_builtin
+    false;
+#elif __has_builtin(__reference_converts_from_temporary)
+    __reference_converts_from_temporary(To, From);
+#elif __has_builtin(__reference_binds_to_temporary)
+    __reference_binds_to_temporary(To, From);
+#else
+    false;
+#endif
+
 /**
  * @brief Triggers a static assert if a conversion may dangle.
  */
 template <tag, typename, typename>
 struct safe_fork : std::true_type {};
 
+// All tags.
+template <tag Tag, typename From, typename... A, typename To, typename... B>
+struct safe_fork<Tag, list<From, A...>, list<To, B...>> : safe_fork<Tag, list<A...>, list<B...>> {
+  static_assert(!binds_temporary_v<From, To>, "Converted argument will dangle");
+};
+
 // General case.
 template <typename From, typename... A, typename To, typename... B>
 struct safe_fork<tag::fork, list<From, A...>, list<To, B...>> : safe_fork<tag::fork, list<A...>, list<B...>> {
   static_assert(safe_fork_t<From, To>::value);
+  static_assert(!binds_temporary_v<From, To>, "Converted argument will dangle");
 };
 
 /**
-- 
2.43.0


From 992857220119e6ba85f4735b3f1c893a34b89ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 15/17] fix: safe_ref_bind_to must not accept unrelated types

---
 include/libfork/core/impl/safe_ref.hpp | 4 ++--
 single_header/libfork.hpp              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libfork/core/impl/safe_ref.hpp b/include/libfork/core/impl/safe_ref.hpp
index 694f96c..c1c23fd 100644
--- a/include/libfork/core/impl/safe_ref.hpp
+++ b/include/libfork/core/impl/safe_ref.hpp
@@ -37,11 +37,11 @@ struct safe_ref_bind_impl<T, T> : std::true_type {};
 // `T const X` can additionally bind to `T X` without dangling//
 
 template <typename To, typename From>
-  requires (!std::same_as<To const &, From &>)
+  requires (!std::same_as<To const &, From &>) && std::convertible_to<From *, To const *>
 struct safe_ref_bind_impl<To const &, From &> : std::true_type {};
 
 template <typename To, typename From>
-  requires (!std::same_as<To const &&, From &&>)
+  requires (!std::same_as<To const &&, From &&>) && std::convertible_to<From *, To const *>
 struct safe_ref_bind_impl<To const &&, From &&> : std::true_type {};
 
 } // namespace detail
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 4450324..5cbf74d 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -3320,11 +3320,11 @@ struct safe_ref_bind_impl<T, T> : std::true_type {};
 // `T const X` can additionally bind to `T X` without dangling//
 
 template <typename To, typename From>
-  requires (!std::same_as<To const &, From &>)
+  requires (!std::same_as<To const &, From &>) && std::convertible_to<From *, To const *>
 struct safe_ref_bind_impl<To const &, From &> : std::true_type {};
 
 template <typename To, typename From>
-  requires (!std::same_as<To const &&, From &&>)
+  requires (!std::same_as<To const &&, From &&>) && std::convertible_to<From *, To const *>
 struct safe_ref_bind_impl<To const &&, From &&> : std::true_type {};
 
 } // namespace detail
-- 
2.43.0


From 1f98da4483c39389a3b0847aa6cff4b004e34566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 16/17] fix: first_arg_t's call operators must test the
 overload they call for noexcept

---
 include/libfork/core/first_arg.hpp | 6 +++---
 single_header/libfork.hpp          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/libfork/core/first_arg.hpp b/include/libfork/core/first_arg.hpp
index 608c8fe..cec5706 100644
--- a/include/libfork/core/first_arg.hpp
+++ b/include/libfork/core/first_arg.hpp
@@ -201,7 +201,7 @@ class first_arg_t {
    */
   template <typename... Args>
     requires std::invocable<F const &, Args...>
-  auto operator()(Args &&...args) const & noexcept(std::is_nothrow_invocable_v<F &, Args...>)
+  auto operator()(Args &&...args) const & noexcept(std::is_nothrow_invocable_v<F const &, Args...>)
       -> std::invoke_result_t<F const &, Args...> {
     return std::invoke(m_fun, std::forward<Args>(args)...);
   }
@@ -211,7 +211,7 @@ class first_arg_t {
    */
   template <typename... Args>
     requires std::invocable<F &&, Args...>
-  auto operator()(Args &&...args) && noexcept(std::is_nothrow_invocable_v<F &, Args...>)
+  auto operator()(Args &&...args) && noexcept(std::is_nothrow_invocable_v<F &&, Args...>)
       -> std::invoke_result_t<F &&, Args...> {
     return std::invoke(std::move(m_fun), std::forward<Args>(args)...);
   }
@@ -221,7 +221,7 @@ class first_arg_t {
    */
   template <typename... Args>
     requires std::invocable<F const &&, Args...>
-  auto operator()(Args &&...args) const && noexcept(std::is_nothrow_invocable_v<F &, Args...>)
+  auto operator()(Args &&...args) const && noexcept(std::is_nothrow_invocable_v<F const &&, Args...>)
       -> std::invoke_result_t<F const &&, Args...> {
     return std::invoke(std::move(m_fun), std::forward<Args>(args)...);
   }
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 5cbf74d..cffa469 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -3120,7 +3120,7 @@ class first_arg_t {
    */
   template <typename... Args>
     requires std::invocable<F const &, Args...>
-  auto operator()(Args &&...args) const & noexcept(std::is_nothrow_invocable_v<F &, Args...>)
+  auto operator()(Args &&...args) const & noexcept(std::is_nothrow_invocable_v<F const &, Args...>)
       -> std::invoke_result_t<F const &, Args...> {
     return std::invoke(m_fun, std::forward<Args>(args)...);
   }
@@ -3130,7 +3130,7 @@ class first_arg_t {
    */
   template <typename... Args>
     requires std::invocable<F &&, Args...>
-  auto operator()(Args &&...args) && noexcept(std::is_nothrow_invocable_v<F &, Args...>)
+  auto operator()(Args &&...args) && noexcept(std::is_nothrow_invocable_v<F &&, Args...>)
       -> std::invoke_result_t<F &&, Args...> {
     return std::invoke(std::move(m_fun), std::forward<Args>(args)...);
   }
@@ -3140,7 +3140,7 @@ class first_arg_t {
    */
   template <typename... Args>
     requires std::invocable<F const &&, Args...>
-  auto operator()(Args &&...args) const && noexcept(std::is_nothrow_invocable_v<F &, Args...>)
+  auto operator()(Args &&...args) const && noexcept(std::is_nothrow_invocable_v<F const &&, Args...>)
       -> std::invoke_result_t<F const &&, Args...> {
     return std::invoke(std::move(m_fun), std::forward<Args>(args)...);
   }
-- 
2.43.0


From 2c78f4450c749fd80dcb8ffad22a3c568f3c820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 17/17] fix: resume_on must work for every scheduler, not just
 worker contexts

---
 include/libfork/core/scheduler.hpp | 16 +++++++++++-----
 single_header/libfork.hpp          | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/libfork/core/scheduler.hpp b/include/libfork/core/scheduler.hpp
index 1f9bc4a..3c6a959 100644
--- a/include/libfork/core/scheduler.hpp
+++ b/include/libfork/core/scheduler.hpp
@@ -9,7 +9,7 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <concepts>    // for convertible_to, same_as
+#include <concepts>    // for convertible_to, derived_from, same_as
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for declval, forward
 
@@ -66,7 +66,7 @@ struct resume_on_quasi_awaitable;
  */
 template <scheduler Sch>
 auto resume_on(Sch *dest) noexcept -> resume_on_quasi_awaitable<Sch> {
-  return resume_on_quasi_awaitable<Sch>{non_null(dest)};
+  return resume_on_quasi_awaitable<Sch>{impl::non_null(dest)};
 }
 
 /**
@@ -77,15 +77,21 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
  private:
   Sch *m_dest;
 
-  explicit resume_on_quasi_awaitable(worker_context *dest) noexcept : m_dest{dest} {}
+  explicit resume_on_quasi_awaitable(Sch *dest) noexcept : m_dest{dest} {}
 
   friend auto resume_on<Sch>(Sch *dest) noexcept -> resume_on_quasi_awaitable;
 
  public:
   /**
-   * @brief Don't suspend if on correct context.
+   * @brief Don't suspend if on correct context (only a context can tell).
    */
-  auto await_ready() const noexcept { return impl::tls::context() == m_dest; }
+  auto await_ready() const noexcept -> bool {
+    if constexpr (std::derived_from<Sch, worker_context>) {
+      return impl::tls::context() == m_dest;
+    } else {
+      return false;
+    }
+  }
 
   /**
    * @brief Reschedule this coroutine onto the requested destination.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index cffa469..69dcabe 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -4488,7 +4488,7 @@ inline constexpr auto call = dispatch<tag::call>;
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <concepts>    // for convertible_to, same_as
+#include <concepts>    // for convertible_to, derived_from, same_as
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for declval, forward
   // for worker_context  // for submit_handle      // for context    // for storable // for non_null
@@ -4540,7 +4540,7 @@ struct resume_on_quasi_awaitable;
  */
 template <scheduler Sch>
 auto resume_on(Sch *dest) noexcept -> resume_on_quasi_awaitable<Sch> {
-  return resume_on_quasi_awaitable<Sch>{non_null(dest)};
+  return resume_on_quasi_awaitable<Sch>{impl::non_null(dest)};
 }
 
 /**
@@ -4551,15 +4551,21 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
  private:
   Sch *m_dest;
 
-  explicit resume_on_quasi_awaitable(worker_context *dest) noexcept : m_dest{dest} {}
+  explicit resume_on_quasi_awaitable(Sch *dest) noexcept : m_dest{dest} {}
 
   friend auto resume_on<Sch>(Sch *dest) noexcept -> resume_on_quasi_awaitable;
 
  public:
   /**
-   * @brief Don't suspend if on correct context.
+   * @brief Don't suspend if on correct context (only a context can tell).
    */
-  auto await_ready() const noexcept { return impl::tls::context() == m_dest; }
+  auto await_ready() const noexcept -> bool {
+    if constexpr (std::derived_from<Sch, worker_context>) {
+      return impl::tls::context() == m_dest;
+    } else {
+      return false;
+    }
+  }
 
   /**
    * @brief Reschedule this coroutine onto the requested destination.
-- 
2.43.0

