From 9aa22de25f462c9c53aafec6cd421d4be2ea65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 01/48] fix: let coroutines outside macoro::detail await a
 barrier or a when_all_scope

---
 macoro/barrier.h        | 2 +-
 macoro/when_all_scope.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 2698b5d..9cbab36 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -128,7 +128,7 @@ namespace macoro
 		coroutine_handle<> ret = continuation;
 		if (m_barrier.increment() > 1)
 		{
-			set_parent(get_traceable(continuation), loc);
+			set_parent(detail::get_traceable(continuation), loc);
 			assert(m_barrier.m_continuation == nullptr);
 			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
 		}
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index f36bb3d..b662375 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -144,7 +144,7 @@ namespace macoro
 				std::coroutine_handle<promise> p, 
 				std::source_location loc = std::source_location::current())
 			{
-				m_handle.promise().m_scope.set_parent(get_traceable(p.promise()), loc);
+				m_handle.promise().m_scope.set_parent(detail::get_traceable(p.promise()), loc);
 				m_handle.resume();
 				return m_join.await_suspend(p);
 			}
-- 
2.43.0


From e5974a5578fb4befa0a9bdf21bc326d7981f3979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 02/48] fix: barrier touched its state after the count had
 fallen to zero

A decrement read m_continuation after bringing the count to zero, when a
waiter may already have passed, destroyed the barrier or started a new
round, so the new round's waiter could be resumed early.
---
 macoro/barrier.h | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 9cbab36..47288ab 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -65,20 +65,22 @@ namespace macoro
 		// the coro that is awaiting the barrier
 		coroutine_handle<> m_continuation;
 
-		// the current count, once it decrements to 0, 
-		// m_continuation is called if set.
+		// the current count times two, plus one if m_continuation 
+		// is set. Once the count decrements to 0, m_continuation is
+		// called if set. If it is not set, then the barrier is not 
+		// accessed after the decrement as it can be reused or destroyed.
 		std::atomic<std::size_t> m_count;
 	public:
 
 		// construct a new barrier with the given initial value.
 		explicit barrier(std::size_t initial_count = 0) noexcept
-			: m_count(initial_count)
+			: m_count(2 * initial_count)
 		{}
 
 		// increament the count by amount and return the new count.
 		std::size_t add(size_t amount) noexcept
 		{
-			auto old = m_count.fetch_add(amount, std::memory_order_relaxed);
+			auto old = m_count.fetch_add(2 * amount, std::memory_order_relaxed) / 2;
 			auto ret = old + amount;
 			assert(ret >= old);
 			return ret;
@@ -93,21 +95,24 @@ namespace macoro
 		// returns the current count.
 		std::size_t count() const noexcept 
 		{
-			return m_count.load(std::memory_order_acquire);
+			return m_count.load(std::memory_order_acquire) / 2;
 		}
 
 		// decrease the count by 1. Returns the new count.
 		std::size_t decrement() noexcept
 		{
-			const std::size_t old_count = m_count.fetch_sub(1, std::memory_order_acq_rel);
+			const std::size_t old = m_count.fetch_sub(2, std::memory_order_acq_rel);
 
-			assert(old_count);
+			assert(old >= 2);
 
-			if (old_count == 1 && m_continuation)
+			// count == 1 and there is a continuation.
+			if (old == 3)
 			{
-				std::exchange(m_continuation, nullptr).resume();
+				auto continuation = std::exchange(m_continuation, nullptr);
+				m_count.fetch_sub(1, std::memory_order_relaxed);
+				continuation.resume();
 			}
-			return old_count - 1;
+			return old / 2 - 1;
 		}
 		
 		// suspend until the count reached zero. Only
@@ -130,9 +135,22 @@ namespace macoro
 		{
 			set_parent(detail::get_traceable(continuation), loc);
 			assert(m_barrier.m_continuation == nullptr);
-			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
+			m_barrier.m_continuation = ret;
+
+			// release our count and set the has continuation bit.
+			auto old = m_barrier.m_count.fetch_sub(1, std::memory_order_acq_rel);
+			assert((old & 1) == 0);
+
+			// there is some remaining count, it will resume us.
+			if (old > 2)
+				return noop_coroutine();
+
+			// ours was the last count.
+			m_barrier.m_continuation = nullptr;
+			m_barrier.m_count.fetch_sub(1, std::memory_order_relaxed);
 		}
-		m_barrier.decrement();
+		else
+			m_barrier.decrement();
 
 		return ret;
 	}
-- 
2.43.0


From a5a517979c8ed07bfa35c7bbc1f08b0af8e243de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 03/48] fix: eager_task could be seen as ready while it was
 still completing

done() is already true while the final awaiter is being evaluated on
another thread; an awaiter (or a caller of is_ready()) could then release
the frame under it.
---
 macoro/task.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/macoro/task.h b/macoro/task.h
index b553067..78b49e8 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -203,6 +203,13 @@ namespace macoro
 				return has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
 			}
 
+			// returns false if the coroutine might still be running. In particular,
+			// the handle can report done() before final_awaitable has been reached.
+			bool has_completed_or_continuation() const noexcept
+			{
+				return has_completed_or_continutation.load(std::memory_order_acquire);
+			}
+
 		private:
 			std::atomic<bool> has_completed_or_continutation;
 			
@@ -477,7 +484,9 @@ namespace macoro
 
 			bool await_ready() const noexcept
 			{
-				return !m_coroutine || m_coroutine.done();
+				return !m_coroutine || (
+					m_coroutine.promise().has_completed_or_continuation() && 
+					m_coroutine.done());
 			}
 
 #ifdef MACORO_CPP_20
@@ -584,7 +593,12 @@ namespace macoro
 		/// Awaiting a task that is ready is guaranteed not to block/suspend.
 		bool is_ready() const noexcept
 		{
-			return m_coroutine && m_coroutine.done();
+			if constexpr (lazy)
+				return m_coroutine && m_coroutine.done();
+			else
+				return m_coroutine &&
+					m_coroutine.promise().has_completed_or_continuation() &&
+					m_coroutine.done();
 		}
 
 		struct ref_awaitable : detail::task_awaitable_base<T,lazy>
-- 
2.43.0


From 77e18d23a5cb6699bd2fb95e708177a4a037faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 04/48] fix: awaiting a when_all_ready lvalue did not compile

---
 macoro/detail/when_all_awaitable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/detail/when_all_awaitable.h b/macoro/detail/when_all_awaitable.h
index cac1a29..511bb67 100644
--- a/macoro/detail/when_all_awaitable.h
+++ b/macoro/detail/when_all_awaitable.h
@@ -131,14 +131,14 @@ namespace macoro
 				bool await_suspend(std::coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return await_suspend(coroutine_handle<>(awaitingCoroutine), loc);
+					return m_awaitable.try_await(coroutine_handle<>(awaitingCoroutine));
 				}
 #endif
 				template<typename Promise>
 				bool await_suspend(coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return m_awaitable.try_await(awaitingCoroutine, loc);
+					return m_awaitable.try_await(awaitingCoroutine);
 				}
 
 				TASK_CONTAINER& await_resume() noexcept
-- 
2.43.0


From 6093627b7f27cad329275da066613fa36e4733da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 05/48] fix: joining an async_scope lost the exceptions of
 tasks that failed after the join began

---
 macoro/async_scope.h    | 16 ++++++++++++----
 macoro/when_all_scope.h |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index ebb5732..bcf87ea 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -188,8 +188,8 @@ namespace macoro
 
 		struct join_awaiter
 		{
+			async_scope& m_scope;
 			barrier_awaiter m_barrier;
-			std::vector<std::exception_ptr> m_exceptions;
 
 			bool await_ready() const noexcept { return m_barrier.await_ready(); }
 
@@ -212,8 +212,16 @@ namespace macoro
 			void await_resume()
 			{
 				m_barrier.await_resume();
-				if (m_exceptions.size())
-					throw async_scope_exception(std::move(m_exceptions));
+
+				// collect the exceptions now, the tasks might have 
+				// failed after this awaiter was constructed.
+				std::vector<std::exception_ptr> exceptions;
+				{
+					std::lock_guard<std::mutex> lock(m_scope.m_exception_mutex);
+					exceptions.swap(m_scope.m_exceptions);
+				}
+				if (exceptions.size())
+					throw async_scope_exception(std::move(exceptions));
 			}
 		};
 
@@ -229,7 +237,7 @@ namespace macoro
 		// until all added awaitables have been completed.
 		join_awaiter MACORO_OPERATOR_COAWAIT() & noexcept
 		{
-			return { m_barrier.MACORO_OPERATOR_COAWAIT(), std::move(m_exceptions) };
+			return { *this, m_barrier.MACORO_OPERATOR_COAWAIT() };
 		}
 
 	private:
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index b662375..70a3977 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -151,7 +151,7 @@ namespace macoro
 
 			void await_resume()
 			{
-				m_join.await_resume();
+				m_join.m_barrier.await_resume();
 			}
 		};
 
-- 
2.43.0


From 90fbababb66363184d597fb6592f0f33f3864546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 06/48] fix: a scoped_task published its completion before it
 was suspended

---
 macoro/async_scope.h                | 21 +++++++++----------
 macoro/detail/scoped_task_promise.h | 31 ++++++++++-------------------
 2 files changed, 19 insertions(+), 33 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index bcf87ea..ee9cb0d 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -267,15 +267,17 @@ namespace macoro
 
 
 		template<typename T>
-		bool scoped_task_promise<T>::final_awaitable::await_ready() noexcept
+		coroutine_handle<> scoped_task_promise<T>::final_awaitable::await_suspend(
+			coroutine_handle<scoped_task_promise> coro) noexcept
 		{
 			scoped_task_promise& promise = m_promise;
 			async_scope* scope = promise.m_scope;
-			bool done = false;
+			coroutine_handle<> next = noop_coroutine();
 
 			// race to see if we need to call the completion handle
 			// it might not have been set yet (or ever).
 			// release our result. acquire their continuation (if they beat us).
+			// if they have not, then the coro can be destroyed by them from here on.
 			completion_state b = promise.completion_state_fetch_or(
 				completion_state::has_completed,
 				std::memory_order_acq_rel);
@@ -293,8 +295,7 @@ namespace macoro
 				// the return value. 
 				if (promise.m_continuation)
 				{
-					m_run_continutation = true;
-					done = false;
+					next = promise.m_continuation;
 				}
 				else
 				{
@@ -303,14 +304,11 @@ namespace macoro
 						// todo, replace vector by a lock free linked list, either to the full
 						// coro frame (no allocations) or to the execptions (node allocations).
 						// for now, locking on expcetions should be fine.
-						std::lock_guard<std::mutex> lock(promise.m_scope->m_exception_mutex);
-						promise.m_scope->m_exceptions.push_back(std::move(promise.m_exception));
+						std::lock_guard<std::mutex> lock(scope->m_exception_mutex);
+						scope->m_exceptions.push_back(std::move(promise.m_exception));
 					}
 
-					// destroy the coro.
-					// this is the same as coro.destroy()
-					// but there is a msvc bug if you do that.
-					done = true;
+					coro.destroy();
 				}
 			}
 			else
@@ -323,12 +321,11 @@ namespace macoro
 				// If a continuation is never set, then the scoped_task
 				// will destroy the coro in its distructor. 
 				assert(b == completion_state::inprogress);
-				done = false;
 			}
 
 			// notify the scope that we are done.
 			scope->m_barrier.decrement();
-			return done;
+			return next;
 		}
 	}
 
diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 76e27cd..07498ff 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -262,40 +262,29 @@ namespace macoro
 			// the status of the value/exception storage.
 			result_type m_result_type = result_type::empty;
 
-			// this final awaiter runs the suspend logic in await_ready
-			// due to a bug un msvc. Using symetric transfer and called
-			// destroy when done = true causes a segfault. This alternative
-			// implementation implicitly destroys the coro by returning
-			// true from await_ready.
+			// this final awaiter runs the completion logic once the
+			// coroutine is suspended. As soon as the completion has been
+			// published, the owner of the scoped_task or whoever is resumed
+			// by the scope can destroy the coroutine.
 			struct final_awaitable
 			{
 				scoped_task_promise& m_promise;
 
-				// a variable used to remember if we need to call the continuation.
-				bool m_run_continutation = false;
+				bool await_ready() noexcept { return false; }
 
-				bool await_ready() noexcept;
+				// publish the completion, notify the scope and return the
+				// continuation to run next, if any.
+				coroutine_handle<> await_suspend(
+					coroutine_handle<scoped_task_promise> coro) noexcept;
 
 #ifdef MACORO_CPP_20
 				std::coroutine_handle<> await_suspend(
 					std::coroutine_handle<scoped_task_promise> coro) noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation.std_cast();
-					else
-						return std::noop_coroutine();
+					return await_suspend(coroutine_handle<scoped_task_promise>(coro)).std_cast();
 				}
 #endif
 
-				coroutine_handle<> await_suspend(
-					coroutine_handle<scoped_task_promise> coro) noexcept
-				{
-					if (m_run_continutation)
-						return m_promise.m_continuation;
-					else
-						return noop_coroutine();
-				}
-
 				void await_resume() noexcept {
 				}
 			};
-- 
2.43.0


From 3941146ab00ead5b9466aa83eefc5960b66c0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 07/48] fix: a when_all_scope could not be awaited by a macro
 coroutine

---
 macoro/when_all_scope.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 70a3977..185f19f 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -149,6 +149,16 @@ namespace macoro
 				return m_join.await_suspend(p);
 			}
 
+			template<typename promise>
+			coroutine_handle<> await_suspend(
+				coroutine_handle<promise> p, 
+				std::source_location loc = std::source_location::current())
+			{
+				m_handle.promise().m_scope.set_parent(detail::get_traceable(p.promise()), loc);
+				m_handle.resume();
+				return m_join.await_suspend(p);
+			}
+
 			void await_resume()
 			{
 				m_join.m_barrier.await_resume();
-- 
2.43.0


From bf2f9995bff88f1ffba42d8af2a33f736b53d1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 08/48] fix: a when_all_scope never released its coroutine
 frame

---
 macoro/when_all_scope.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 185f19f..1fa6b0b 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -132,6 +132,27 @@ namespace macoro
 			: m_handle(h)
 		{}
 
+		when_all_scope(when_all_scope&& other) noexcept
+			: m_handle(std::exchange(other.m_handle, nullptr))
+		{}
+
+		when_all_scope& operator=(when_all_scope&& other) noexcept
+		{
+			if (std::addressof(other) != this)
+			{
+				if (m_handle)
+					m_handle.destroy();
+				m_handle = std::exchange(other.m_handle, nullptr);
+			}
+			return *this;
+		}
+
+		~when_all_scope()
+		{
+			if (m_handle)
+				m_handle.destroy();
+		}
+
 		struct awaiter
 		{
 			coroutine_handle<promise_type> m_handle;
-- 
2.43.0


From 5510826daafb05b85416552cac96d63c879d40b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 09/48] fix: sequence_barrier waiter is freed without ordering
 after the other side's exchange

await_suspend() and resume() hand the waiter to whichever comes second; the
release-only exchange in resume() did not order the other thread's last access
before the destruction of the waiter.
---
 macoro/sequence_barrier.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_barrier.h b/macoro/sequence_barrier.h
index 9977680..03c130c 100644
--- a/macoro/sequence_barrier.h
+++ b/macoro/sequence_barrier.h
@@ -167,7 +167,7 @@ namespace macoro
 		{
 			m_awaitingCoroutine = awaitingCoroutine;
 			m_barrier.add_awaiter(this);
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -181,8 +181,9 @@ namespace macoro
 
 		void resume() noexcept
 		{
-			// This synchronises with the exchange(true, std::memory_order_acquire) in await_suspend().
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			// This synchronises with the exchange(true, std::memory_order_acq_rel) in await_suspend().
+			// Both sides acquire: whoever comes second may resume and so destroy this object.
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				m_awaitingCoroutine.resume();
 				//resume_impl();
-- 
2.43.0


From eabda40924de119fd48712ab779b7e4b9cf24f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 10/48] fix: sequence_spsc::claim_up_to overruns the buffer
 when a narrow number type wraps

The difference of two 8- or 16-bit numbers was taken as int and converted to a
huge size_t.
---
 macoro/sequence_spsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_spsc.h b/macoro/sequence_spsc.h
index e282cf6..6f9c367 100644
--- a/macoro/sequence_spsc.h
+++ b/macoro/sequence_spsc.h
@@ -242,7 +242,7 @@ namespace macoro
 			const SEQUENCE lastAvailableSequence =
 				static_cast<SEQUENCE>(m_consumerWaitOperation.await_resume() + m_sequencer.m_bufferSize);
 			const SEQUENCE begin = m_sequencer.m_nextToClaim;
-			const std::size_t availableCount = static_cast<std::size_t>(lastAvailableSequence - begin) + 1;
+			const std::size_t availableCount = static_cast<std::size_t>(static_cast<SEQUENCE>(lastAvailableSequence - begin)) + 1;
 			const std::size_t countToClaim = std::min(m_count, availableCount);
 			const SEQUENCE end = static_cast<SEQUENCE>(begin + countToClaim);
 			m_sequencer.m_nextToClaim = end;
-- 
2.43.0


From e7e44ec30bf215a88c29efe7fdce9074d488cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 11/48] fix: sequence_mpsc::any_available denies the last free
 slot

---
 macoro/sequence_mpsc.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 4833646..88b97c3 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -453,9 +453,10 @@ namespace macoro
 	template<typename SEQUENCE, typename TRAITS>
 	bool sequence_mpsc<SEQUENCE, TRAITS>::any_available() const noexcept
 	{
-		return TRAITS::precedes(
-			m_nextToClaim.load(std::memory_order_relaxed),
-			m_consumerBarrier.last_published() + buffer_size());
+		// The slots up to and including last_published() + buffer_size() can be claimed.
+		return !TRAITS::precedes(
+			static_cast<SEQUENCE>(m_consumerBarrier.last_published() + buffer_size()),
+			m_nextToClaim.load(std::memory_order_relaxed));
 	}
 
 	template<typename SEQUENCE, typename TRAITS>
-- 
2.43.0


From 823fc6bd83634aec2aa9adce206b0cb3ea21355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 12/48] fix: sequence_mpsc waking one waiter also wakes others
 whose number is not published

add_awaiter() compared the new waiter's target instead of each waiter's own.
---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 88b97c3..a7c16a6 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -687,7 +687,7 @@ namespace macoro
 
 				while (awaiters != nullptr)
 				{
-					diff_t diff = TRAITS::difference(targetSequence, lastKnownPublished);
+					diff_t diff = TRAITS::difference(awaiters->m_targetSequence, lastKnownPublished);
 					if (diff > 0)
 					{
 						// Not yet ready.
-- 
2.43.0


From 924876278629d17a390d21d502f2c3d1642d6777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 13/48] fix: sequence_mpsc loses a waiter when a narrow number
 type wraps

The published number was compared with an int that did not wrap.
---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index a7c16a6..232117d 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -670,7 +670,7 @@ namespace macoro
 			//
 			// TODO: Check whether we can weaken the memory order here to just use 'seq_cst' on the
 			// first .load() and then use 'acquire' on subsequent .load().
-			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == (lastKnownPublished + 1))
+			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == static_cast<SEQUENCE>(lastKnownPublished + 1))
 			{
 				++lastKnownPublished;
 			}
-- 
2.43.0


From 2e44aeaf51e89828535f8fc4b5a278ebfa520f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 14/48] fix: sequence_mpsc waiter is freed without ordering
 after the other side's exchange

---
 macoro/sequence_mpsc.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 232117d..db6b549 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -362,7 +362,7 @@ namespace macoro
 			// If it was already marked as ready-to-resume within the call to add_awaiter() or
 			// on another thread then this exchange() will return true. In this case we want to
 			// resume immediately and continue execution by returning false.
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -377,7 +377,8 @@ namespace macoro
 		void resume(SEQUENCE lastKnownPublished) noexcept
 		{
 			m_lastKnownPublished = lastKnownPublished;
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			// Both sides acquire: whoever comes second may resume and so destroy this object.
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				resume_impl();
 			}
-- 
2.43.0


From 3eeef966b36f64ca8dd114e284a980ecdd214295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 15/48] fix: channel pop() after close() yields a default value
 instead of throwing

close() documents that the receiver throws if they try to pop; only front() did.
---
 macoro/channel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macoro/channel.h b/macoro/channel.h
index 598efa3..cd6d6d7 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -324,6 +324,8 @@ namespace macoro
                 pop_wrapper await_resume() {
                     this->mChl->mLastKnown = this->mInner.await_resume();
                     assert(this->mChl->mLastKnown >= this->mChl->mFrontIndex);
+                    if (!this->mChl->mData[this->mChl->mFrontIndex & this->mChl->mIndexMask])
+                        throw channel_closed_exception{};
                     return pop_wrapper(this->mChl, this->mChl->mFrontIndex);
                 }
             };
-- 
2.43.0


From a7cf6b28f1c8d82125559e770cc2efe672db82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 16/48] fix: a multi-producer channel of bad capacity crashed
 before the capacity was checked

The sequencer was constructed first and indexed an array of that size.
---
 macoro/channel.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index cd6d6d7..5cd1047 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -35,6 +35,15 @@ namespace macoro
         std::size_t mIndexMask = 0, mFrontIndex = 0, mLastKnown = sequence_traits<std::size_t>::initial_sequence;
         std::vector<optional<T>> mData;
 
+        // Must be called before the sequence is constructed with the capacity.
+        static std::size_t checked_capacity(std::size_t capacity)
+        {
+            auto powOf2 = (capacity > 0 && (capacity & (capacity - 1)) == 0);
+            if (!powOf2)
+                throw std::runtime_error("capacity must be a power of 2");
+            return capacity;
+        }
+
         class wrapper_base
         {
         protected:
@@ -155,12 +164,9 @@ namespace macoro
         // Initialize the channel with an internal max storage of capacity.
         // capacity must be a power of two.
         channel(std::size_t capacity)
-            : mSequence(mBarrier, capacity)
+            : mSequence(mBarrier, checked_capacity(capacity))
             , mData(capacity)
         {
-            auto powOf2 = (capacity > 0 && (capacity & (capacity - 1)) == 0);
-            if (!powOf2)
-                throw std::runtime_error("capacity must be a power of 2");
             mIndexMask = capacity - 1;
         }
 
-- 
2.43.0


From cec786f4eec8951e51c3336d92b9ccb2dc9c9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 17/48] fix: resume a stop token's waiter only after its
 callback is registered

---
 macoro/stop.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/macoro/stop.h b/macoro/stop.h
index e603d6e..78381b0 100644
--- a/macoro/stop.h
+++ b/macoro/stop.h
@@ -1,6 +1,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <optional>
 #include "macoro/coroutine_handle.h"
@@ -35,6 +36,7 @@ namespace macoro
 
 		stop_token mtoken;
 		optional_stop_callback mReg;
+		std::atomic<bool> mSecond{ false };
 		bool await_ready() { return false; }
 
 		std::coroutine_handle<> await_suspend(std::coroutine_handle<> h)
@@ -45,11 +47,17 @@ namespace macoro
 		{
 			if (mtoken.stop_possible() && !mtoken.stop_requested())
 			{
-				mReg.emplace(mtoken, [h] {
-					h.resume();
+				// the stop might be requested while the callback is being registered,
+				// in which case mReg is still being constructed. Whoever comes second
+				// resumes the coroutine.
+				mReg.emplace(mtoken, [this, h] {
+					auto hh = h;
+					if (mSecond.exchange(true, std::memory_order_acq_rel))
+						hh.resume();
 					});
 
-				return noop_coroutine();
+				if (mSecond.exchange(true, std::memory_order_acq_rel) == false)
+					return noop_coroutine();
 			}
 			return h;
 		}
-- 
2.43.0


From 65ed661e3d8d73dff848452958fab6a0a7037bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:37 +0000
Subject: [PATCH 18/48] fix: pool threads refer to the pool's state, not to the
 movable pool

---
 macoro/thread_pool.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 8bf9478..a758657 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -336,7 +336,7 @@ namespace macoro
                 mState->mThreads.reserve(mState->mThreads.size() + n);
                 for (std::size_t i = 0; i < n; ++i)
                 {
-                    mState->mThreads.emplace_back([this] {run(); });
+                    mState->mThreads.emplace_back([state = mState.get()] {run(state); });
                 }
             }
         }
@@ -377,7 +377,14 @@ namespace macoro
 
         void run()
         {
-            auto state = mState.get();
+            run(mState.get());
+        }
+
+    private:
+
+        // the threads refer to the state, the pool object itself might be moved.
+        static void run(detail::thread_pool_state* state)
+        {
             //state->log("run");
 
             if (detail::thread_pool_state::mCurrentExecutor != nullptr)
-- 
2.43.0


From bd800613663aee326c684562a166629f4247964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 19/48] fix: notify the pool's threads under its lock, the pool
 might be destroyed right after

---
 macoro/thread_pool.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index a758657..0382d68 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -79,8 +79,9 @@ namespace macoro
                 {
                     std::lock_guard<std::mutex> lock(mMutex);
                     mDeque.push_back(std::move(fn));
+                    // under the lock: fn might let the pool be destroyed.
+                    mCondition.notify_one();
                 }
-                mCondition.notify_one();
             }
 
             MACORO_NODISCARD
@@ -94,9 +95,9 @@ namespace macoro
                     {
                         std::lock_guard<std::mutex> lock(mMutex);
                         mDeque.push_back(std::move(fn));
+                        mCondition.notify_one();
                     }
 
-                    mCondition.notify_one();
                     return false;
                 }
             }
@@ -243,14 +244,12 @@ namespace macoro
                 if (mEx)
                 {
 
-                    std::size_t v = 0;
                     {
+                        // notify under the lock, the pool might be destroyed once its
+                        // threads see that no work is left.
                         std::lock_guard<std::mutex> lock(mEx->mMutex);
-                        v = --mEx->mWork;
-                    }
-                    if (v == 0)
-                    {
-                        mEx->mCondition.notify_all();
+                        if (--mEx->mWork == 0)
+                            mEx->mCondition.notify_all();
                     }
                     mEx = nullptr;
                 }
-- 
2.43.0


From 30e4c345e0a1b7d5cca970103962d27bc77e5032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 20/48] fix: register a delayed coroutine's stop callback
 before it can be resumed

---
 macoro/thread_pool.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 0382d68..450745f 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -115,17 +115,27 @@ namespace macoro
                     {
                         std::unique_lock<std::mutex> lock(mMutex);
                         idx = mDelayOpIdx++;
-                        mDelayHeap.emplace_back(idx, h, deadline);
-                        std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     }
 
+                    // register before h can be resumed, that destroys reg.
                     if (token.stop_possible())
                     {
-                        reg.emplace(std::move(token), [idx, this] {
+                        reg.emplace(token, [idx, this] {
                             cancel_delay_op(idx);
                             });
                     }
-                    mCondition.notify_one();
+
+                    {
+                        std::unique_lock<std::mutex> lock(mMutex);
+
+                        // the callback might have run before there was an op to cancel.
+                        if (token.stop_requested())
+                            deadline = thread_pool_clock::now();
+
+                        mDelayHeap.emplace_back(idx, h, deadline);
+                        std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
+                        mCondition.notify_one();
+                    }
                 }
                 else
                 {
-- 
2.43.0


From 9c81a957728797a202c59e2304113c739fabc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 21/48] fix: cancelling a delayed coroutine wakes every pool
 thread waiting for its deadline

---
 macoro/thread_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 450745f..5193828 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -161,8 +161,9 @@ namespace macoro
                         }
                     }
                 }
+                // other threads might be waiting for the old deadline.
                 if (notify)
-                    mCondition.notify_one();
+                    mCondition.notify_all();
             }
 
         };
-- 
2.43.0


From 98c87aea3bad4b26d253cda6cbb1920a65ad9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:31 +0000
Subject: [PATCH 22/48] fix: a pool thread that takes an item passes on the
 care of the remaining ones

---
 macoro/thread_pool.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 5193828..817d815 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -450,6 +450,10 @@ namespace macoro
 
                     if (fn)
                     {
+                        // this thread might have been the only one looking after the rest.
+                        if (state->mDeque.size() || state->mDelayHeap.size())
+                            state->mCondition.notify_one();
+
                         lock.unlock();
 
                         fn.resume();
-- 
2.43.0


From 1979c0de0e344b733b904bf5573c5c1690774c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 23/48] fix: assigning over a thread pool joins its threads

---
 macoro/thread_pool.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 817d815..2fa5280 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -276,7 +276,15 @@ namespace macoro
             :mState(new detail::thread_pool_state)
         {}
         thread_pool(thread_pool&&) = default;
-        thread_pool& operator=(thread_pool&&) = default;
+        thread_pool& operator=(thread_pool&& o)
+        {
+            if (this != &o)
+            {
+                join();
+                mState = std::move(o.mState);
+            }
+            return *this;
+        }
 
         thread_pool(std::size_t number_of_threads, work& w)
             : mState(new detail::thread_pool_state)
-- 
2.43.0


From 92742a26d66ef542c9da5375ad96e9dbdc4dadd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 24/48] fix: take_until moves its stored result out, so
 move-only results work

---
 macoro/take_until.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/take_until.h b/macoro/take_until.h
index 2ff14eb..4bdcbf6 100644
--- a/macoro/take_until.h
+++ b/macoro/take_until.h
@@ -48,6 +48,6 @@ namespace macoro
 			std::rethrow_exception(ex);
 
 		if constexpr (is_void == false)
-			co_return static_cast<awaitable_result_t<AWAITABLE>>(v.value());
+			co_return static_cast<awaitable_result_t<AWAITABLE>>(std::move(v.value()));
 	}
 }
-- 
2.43.0


From 87be1be4b69919e7532b2861b88faac50a65a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 25/48] fix: const accessors, comparisons and Ok/Err from const
 values of result

---
 macoro/result.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 8afac5f..564e90f 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -19,7 +19,7 @@ namespace macoro
 		struct OkTag {
 			const T& mV;
 
-			OkTag(T& e)
+			OkTag(const T& e)
 				:mV(e)
 			{}
 
@@ -53,7 +53,7 @@ namespace macoro
 		struct ErrorTag {
 			const E& mE;
 
-			ErrorTag(E& e)
+			ErrorTag(const E& e)
 				:mE(e)
 			{}
 
@@ -310,7 +310,7 @@ namespace macoro
 			return !has_value();
 		}
 
-		explicit operator bool() {
+		explicit operator bool() const {
 			return has_value();
 		}
 
@@ -327,7 +327,7 @@ namespace macoro
 			if (has_error())
 				result_rethrow(error());
 
-			return value();
+			return MACORO_VARIANT_NAMESPACE::get<0>(var());
 		}
 
 		const value_type& operator*() const { return value(); }
@@ -445,24 +445,24 @@ namespace macoro
 		template<typename T2>
 		bool operator!=(detail::OkTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename T2>
 		bool operator!=(detail::OkMvTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 
@@ -511,7 +511,7 @@ namespace macoro
 			return !has_value();
 		}
 
-		explicit operator bool() {
+		explicit operator bool() const {
 			return has_value();
 		}
 
@@ -600,12 +600,12 @@ namespace macoro
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		detail::result_awaiter<void, Error> MACORO_OPERATOR_COAWAIT()
-- 
2.43.0


From 08129c65904638c8685c977f08253384a40ce92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 26/48] fix: a result whose value and error types are equal can
 be constructed

---
 macoro/result.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 564e90f..11e9c82 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -287,10 +287,10 @@ namespace macoro
 		result& operator=(const result&) = default;
 		result& operator=(result&&) = default;
 
-		result(detail::OkTag<value_type>&& v) :mVar(v.mV) {}
-		result(detail::OkMvTag<value_type>&& v) : mVar(std::move(v.mV)) {}
-		result(detail::ErrorTag<error_type>&& e) : mVar(e.mE) {}
-		result(detail::ErrorMvTag<error_type>&& e) :mVar(std::move(e.mE)) {}
+		result(detail::OkTag<value_type>&& v) : mVar(MACORO_VARIANT_NAMESPACE::in_place_index<0>, v.mV) {}
+		result(detail::OkMvTag<value_type>&& v) : mVar(MACORO_VARIANT_NAMESPACE::in_place_index<0>, std::move(v.mV)) {}
+		result(detail::ErrorTag<error_type>&& e) : mVar(MACORO_VARIANT_NAMESPACE::in_place_index<1>, e.mE) {}
+		result(detail::ErrorMvTag<error_type>&& e) : mVar(MACORO_VARIANT_NAMESPACE::in_place_index<1>, std::move(e.mE)) {}
 
 
 		variant<value_type, error_type> mVar;
-- 
2.43.0


From a1686df9225469a67e61cedb63e1c592f75ac32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 27/48] fix: Ok and Err copy an lvalue instead of moving it
 away

---
 macoro/result.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 11e9c82..f258026 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -100,8 +100,9 @@ namespace macoro
 		return detail::ErrorTag<remove_cvref_t<T>>(t);
 	}
 
+	// only for rvalues, an lvalue is copied.
 	template<typename T>
-	detail::ErrorMvTag<remove_cvref_t<T>> Err(T&& t)
+	enable_if_t<!std::is_lvalue_reference<T>::value && !std::is_const<T>::value, detail::ErrorMvTag<remove_cvref_t<T>>> Err(T&& t)
 	{
 		return detail::ErrorMvTag<remove_cvref_t<T>>(t);
 	}
@@ -118,8 +119,9 @@ namespace macoro
 		return detail::OkTag<remove_cvref_t<T>>(t);
 	}
 
+	// only for rvalues, an lvalue is copied.
 	template<typename T>
-	detail::OkMvTag<remove_cvref_t<T>> Ok(T&& t)
+	enable_if_t<!std::is_lvalue_reference<T>::value && !std::is_const<T>::value, detail::OkMvTag<remove_cvref_t<T>>> Ok(T&& t)
 	{
 		return detail::OkMvTag<remove_cvref_t<T>>(t);
 	}
-- 
2.43.0


From 7e9174db6d7741fd7efc0de91ff1f03ed355746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:31 +0000
Subject: [PATCH 28/48] fix: MC_AWAIT_TRY captures exceptions thrown before the
 coroutine is suspended

---
 macoro/coro_frame.h | 11 +++++++++++
 macoro/macros.h     | 22 +++++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 26a1772..1fc24d2 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -371,6 +371,17 @@ namespace macoro
 		}
 
 
+		// destroy the given awaiter, if it is the current one.
+		// Used when an await fails before the coroutine is suspended.
+		void cancelAwaiter(size_t suspend_index)
+		{
+			if (awaiters.size() && awaiters.back().suspend_index == suspend_index)
+			{
+				awaiters.back()._awaiter_deleter(awaiters.back()._ctx_ptr);
+				awaiters.pop_back();
+			}
+		}
+
 		template<typename CTX>
 		auto& makeAwaitContext()
 		{
diff --git a/macoro/macros.h b/macoro/macros.h
index 9f5ee5e..da54c6c 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -26,11 +26,14 @@
 // the value returned from the function.
 // 
 // Then we have the awaiter, we call await_ready and await_suspend.
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)																	\
+#define IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)																	\
 	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
 	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
 		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>;						\
-	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;											\
+	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;
+
+// The second part of IMPL_MC_AWAIT_CORE_NS, see above. IMPL_MC_AWAIT_TYPES must be in scope.
+#define IMPL_MC_AWAIT_BODY(EXPRESSION, SUSPEND_IDX)																		\
 	{																													\
 		auto& _macoro_promise = _macoro_frame_->promise;																\
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
@@ -53,6 +56,10 @@
 		}																										\
 	}																					
 
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)																	\
+	IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)																		\
+	IMPL_MC_AWAIT_BODY(EXPRESSION, SUSPEND_IDX)
+
 // This macro expands out to generated the await_ready and await_suspend calls.
 // It defines a suspension point but does not call await_resume. This should be
 // used with other macros which perform the await_resume call.
@@ -75,7 +82,16 @@
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
 #define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)												\
+					/*the expression, await_ready and await_suspend can throw before we are suspended.*/		\
+					try { IMPL_MC_AWAIT_BODY(EXPRESSION, SUSPEND_IDX) }											\
+					catch (...)																					\
+					{																							\
+						_macoro_frame_->cancelAwaiter(SUSPEND_IDX);												\
+						RETURN_SLOT = ::macoro::Err(std::current_exception());									\
+						break;																					\
+					}																							\
+					MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):				\
 					/*<resume-point>*/																			\
 					::macoro::detail::try_resume(RETURN_SLOT, 													\
 						_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>());	\
-- 
2.43.0


From 207f79d90c0fcc1cfce12d7ad2cb2bebad4fc4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 29/48] fix: a pool thread waits on a copy of the next
 deadline, the heap can be reallocated

---
 macoro/thread_pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 2fa5280..33e71fd 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -426,7 +426,9 @@ namespace macoro
 
                         if (state->mDelayHeap.size())
                         {
-                            state->mCondition.wait_until(lock, state->mDelayHeap.front().deadline);
+                            // a copy, the heap can be reallocated while we wait.
+                            auto deadline = state->mDelayHeap.front().deadline;
+                            state->mCondition.wait_until(lock, deadline);
                         }
                         else
                         {
-- 
2.43.0


From 4707a381aa6e8b8ba53fad8336058672dd4d017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 30/48] fix: macro coroutines can await awaiters that only take
 or return the standard handle

---
 macoro/coro_frame.h | 49 +++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 1fc24d2..87c8f89 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -93,6 +93,20 @@ namespace macoro
 	}
 #endif
 
+	template<typename Awaiter, typename T>
+	constexpr bool noexcept_await_suspend()
+	{
+
+		if constexpr (requires(Awaiter& a, coroutine_handle<T> h) { a.await_suspend(h); })
+		{
+			return noexcept(std::declval<Awaiter&>().await_suspend(coroutine_handle<T>{}));
+		}
+		else
+		{
+			return noexcept(std::declval<Awaiter&>().await_suspend(std::coroutine_handle<void>{}));
+		}
+	}
+
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
@@ -101,7 +115,7 @@ namespace macoro
 		||
 		has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(a.await_suspend(h)))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
 		a.await_suspend(h2);
@@ -116,7 +130,7 @@ namespace macoro
 		||
 		has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(await_suspend_t<bool>{ a.await_suspend(h) }))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
@@ -124,20 +138,6 @@ namespace macoro
 	}
 
 
-	template<typename Awaiter, typename T>
-	constexpr bool noexcept_await_suspend()
-	{
-
-		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(coroutine_handle<T>{}));
-		}
-		else
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(std::coroutine_handle<void>{}));
-		}
-	}
-
 	template<typename Awaiter, typename T>
 	auto await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
@@ -166,9 +166,20 @@ namespace macoro
 
 		if constexpr (requires(Awaiter a) { a.await_suspend(h); })
 		{
-			using promise_type = typename coroutine_handle_traits<decltype(a.await_suspend(h))>::promise_type;
-			auto ret = a.await_suspend(h);
-			return await_suspend_t<coroutine_handle<promise_type>>{ ret, h != ret  };
+			using handle_type = decltype(a.await_suspend(h));
+			using promise_type = typename coroutine_handle_traits<handle_type>::promise_type;
+			if constexpr (std::is_convertible<handle_type, coroutine_handle<>>::value)
+			{
+				auto ret = a.await_suspend(h);
+				return await_suspend_t<coroutine_handle<promise_type>>{ ret, h != ret  };
+			}
+			else
+			{
+				// once suspended, h might be destroyed. get its std handle first.
+				auto hstd = h.std_cast();
+				auto ret = a.await_suspend(h);
+				return await_suspend_t<coroutine_handle<promise_type>>{ coroutine_handle<promise_type>(ret), hstd != ret  };
+			}
 		}
 		else
 		{
-- 
2.43.0


From fbcc4c584c7de422ad37d1656f99916a44d65209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 31/48] fix: awaiting between native and macro coroutines uses
 constant stack

The adapter that resumes a macro coroutine through its standard handle
resumed whatever came next from within itself, so chains and loops mixing
native and macro coroutines used stack proportional to their length.
---
 macoro/coro_frame.h | 58 +++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 87c8f89..9b3bcfc 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -716,6 +716,14 @@ namespace macoro
 
 					bool await_ready() { return false; }
 
+#ifdef _MSC_VER
+					// Ideally we would perform symmetric transfer here but there is
+					// a compiler bug in MSVC. Doing anything but returning here may cause
+					//  ASAN error on MSVC. See 
+					// https://developercommunity.visualstudio.com/mTask/c20-coroutine-resume-thread-safety/1668687?entry=myfeedback&space=62&ref=native&refTime=1645079575781&refUserId=36961f1e-1836-4f6a-af82-ffcfa64d75a3&viewtype=all
+					// In particular, the adpater might have already been destroyed
+					// and MSVC for some unknown reason updates the adapter frame even
+					// though the coro has already been suspended. 
 					void await_suspend(std::coroutine_handle<P>)
 					{
 						auto ll = frame->frame_adapter_storage;
@@ -724,34 +732,28 @@ namespace macoro
 						assert(h);
 						h.resume();
 					}
-					//std::coroutine_handle<> await_suspend(std::coroutine_handle<P>)
-					//{
-						//// resume our own coro
-						//auto h = (*frame)(static_cast<FrameBase<promise_type>*>(frame));
-						//assert(h);
-
-						//// Ideally we would perform sysmetric transfer here but there is
-						//// a compiler bug in MSVC. Doing anothing but returning here may cause
-						////  ASAN error on MSVC. See 
-						//// https://developercommunity.visualstudio.com/mTask/c20-coroutine-resume-thread-safety/1668687?entry=myfeedback&space=62&ref=native&refTime=1645079575781&refUserId=36961f1e-1836-4f6a-af82-ffcfa64d75a3&viewtype=all
-						//// In particular, the adpater might have already been destroyed
-						//// and MSVC for some unknown reason updates the adapter frame even
-						//// though the coro has already been suspended. 
-						//return h.std_cast();
-
-						//// we have to perform the symmetric transfer loop here for
-						//// macoro coroutines since we can only return std::coroutine_handle<>.
-						//while (h != noop_coroutine() && h.is_std() == false)
-						//{
-						//	auto realAddr = reinterpret_cast<FrameBase<void>*>((std::size_t)h.address() ^ 1);
-						//	auto _address = realAddr->resume(realAddr).address();
-						//	h = coroutine_handle<void>::from_address(_address);
-						//}
-
-						//// we either have a std coro or a noop. We can
-						//// have the std perform symmetric transfer on that. 
-						//return h.std_cast();
-					//}
+#else
+					std::coroutine_handle<> await_suspend(std::coroutine_handle<P>)
+					{
+						auto ll = frame->frame_adapter_storage;
+						// resume our own coro
+						auto h = (*frame)(static_cast<FrameBase<promise_type>*>(frame));
+						assert(h);
+
+						// we have to perform the symmetric transfer loop here for
+						// macoro coroutines since we can only return std::coroutine_handle<>.
+						while (h != noop_coroutine() && h.is_std() == false)
+						{
+							auto realAddr = reinterpret_cast<FrameBase<void>*>((std::size_t)h.address() ^ 1);
+							h = realAddr->resume(realAddr);
+							assert(h);
+						}
+
+						// we either have a std coro or a noop. We can
+						// have the std perform symmetric transfer on that. 
+						return h.std_cast();
+					}
+#endif
 
 					void await_resume() {}
 				};
-- 
2.43.0


From ca56782f18ebc3fc2a19f2a4d52f3f90a98f148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 32/48] fix: the adapter of a captureless macro coroutine
 starts as not done with clang

---
 macoro/coro_frame.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 9b3bcfc..a8fac7f 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -562,6 +562,10 @@ namespace macoro
 
 			struct promise_type
 			{
+				// not an aggregate, it would be initialized from the frame
+				// if that converts to bool, as captureless lambdas do.
+				promise_type() noexcept {}
+
 				suspend_always initial_suspend() noexcept { return {}; }
 				suspend_always final_suspend() const noexcept { return {}; }
 
-- 
2.43.0


From c387b263d941fc60c59d7468566baf88550642d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 33/48] fix: done() and destroy() of a type erased noop
 coroutine

---
 macoro/coro_frame.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index a8fac7f..f05f971 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -838,6 +838,8 @@ namespace macoro
 
 	inline bool _macoro_coro_done(void* _address)noexcept
 	{
+		if (_address == noop_coroutine().address())
+			return false;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
@@ -937,6 +939,8 @@ namespace macoro
 
 	inline void _macoro_coro_destroy(void* _address)noexcept
 	{
+		if (_address == noop_coroutine().address())
+			return;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
-- 
2.43.0


From cd893fb92988efaa9e20e11d8e4fbdf2ded8de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 34/48] fix: a macro coroutine can be destroyed through its
 standard handle

---
 macoro/coro_frame.h | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index f05f971..ca358b6 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -575,6 +575,9 @@ namespace macoro
 				}
 
 				bool mDone = false;
+
+				// true if we were destroyed using the std handle.
+				bool mDestroying = false;
 				coroutine_handle<outter_promise_type> outer_handle;
 
 
@@ -583,20 +586,37 @@ namespace macoro
 				~promise_type()
 				{
 					if (outer_handle)
+					{
+						mDestroying = true;
 						outer_handle.destroy();
+					}
 				}
 
 				template<typename TT>
 				void* operator new(std::size_t size, TT& base)
 				{
 					assert(base.frame_adapter_storage == nullptr);
-					base.frame_adapter_storage =
-						std::shared_ptr<char>(new char[size], std::default_delete<char[]>());
-					return base.frame_adapter_storage.get();
+					// the storage is shared by the frame and the adapter. The reference 
+					// of the adapter is stored after the adapter itself.
+					auto offset = self_offset(size);
+					base.frame_adapter_storage = std::shared_ptr<char>(
+						new char[offset + sizeof(std::shared_ptr<char>)], std::default_delete<char[]>());
+					auto ptr = base.frame_adapter_storage.get();
+					new (ptr + offset) std::shared_ptr<char>(base.frame_adapter_storage);
+					return ptr;
 				}
 
 				void operator delete(void* ptr, std::size_t size)
 				{
+					auto self = reinterpret_cast<std::shared_ptr<char>*>((char*)ptr + self_offset(size));
+					auto storage = std::move(*self);
+					self->~shared_ptr();
+				}
+
+				static std::size_t self_offset(std::size_t size)
+				{
+					auto a = alignof(std::shared_ptr<char>);
+					return (size + a - 1) / a * a;
 				}
 
 				void return_void() {}
@@ -606,7 +626,8 @@ namespace macoro
 
 			~std_handle_adapter()
 			{
-				std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
+				if (!promise->mDestroying)
+					std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
 			}
 
 			promise_type* promise;
-- 
2.43.0


From 96016cd6dbf5b1b0ca80370833854e0d57b6a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 35/48] fix: a macro coroutine whose promise rethrows an
 unhandled exception is done

---
 macoro/coro_frame.h | 25 +++++++++++++++++++++++++
 macoro/macros.h     |  2 +-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index ca358b6..bc6d89e 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -350,6 +350,9 @@ namespace macoro
 
 		bool _initial_suspend_await_resumed_called_ = false;
 
+		// true if the coroutine was last resumed using the std handle.
+		bool _resumed_by_adapter_ = false;
+
 
 		struct awaiters
 		{
@@ -648,6 +651,25 @@ namespace macoro
 		}
 #endif
 
+		// reports the current exception to the promise. If the promise 
+		// throws, the coroutine is considered to be at the final suspend point.
+		void unhandled_exception()
+		{
+			try
+			{
+				promise.unhandled_exception();
+			}
+			catch (...)
+			{
+				_suspension_idx_ = SuspensionPoint::FinalSuspend;
+
+				// if the adapter is what resumed us, the exception will finish it.
+				if (!_resumed_by_adapter_)
+					final_suspend();
+				throw;
+			}
+		}
+
 		void final_suspend()
 		{
 #ifdef MACORO_CPP_20
@@ -683,6 +705,7 @@ namespace macoro
 		static coroutine_handle<void> resume_impl(FrameBase<void>* ptr)
 		{
 			auto This = static_cast<Frame<LambdaType, Promise>*>(ptr);
+			This->_resumed_by_adapter_ = false;
 			return (*This)(static_cast<FrameBase<Promise>*>(This));
 		}
 		static_assert(static_cast<Frame<LambdaType, Promise>*>(nullptr) == nullptr,"");
@@ -753,6 +776,7 @@ namespace macoro
 					{
 						auto ll = frame->frame_adapter_storage;
 						// resume our own coro
+						frame->_resumed_by_adapter_ = true;
 						auto h = (*frame)(static_cast<FrameBase<promise_type>*>(frame));
 						assert(h);
 						h.resume();
@@ -762,6 +786,7 @@ namespace macoro
 					{
 						auto ll = frame->frame_adapter_storage;
 						// resume our own coro
+						frame->_resumed_by_adapter_ = true;
 						auto h = (*frame)(static_cast<FrameBase<promise_type>*>(frame));
 						assert(h);
 
diff --git a/macoro/macros.h b/macoro/macros.h
index da54c6c..1eb02d1 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -206,7 +206,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 // `co_return co_yeild EXPRESSION`
 #define MC_RETURN_YIELD(EXPRESSION)			MC_RETURN_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
 
-#define MC_UNHANDLED_EXCEPTION _macoro_frame_->promise.unhandled_exception()
+#define MC_UNHANDLED_EXCEPTION _macoro_frame_->unhandled_exception()
 
 // End the coroutine body.
 #define MC_END()																								\
-- 
2.43.0


From 9b90bdf6b869c5215737839dc2aea62dcf54e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 36/48] fix: a macro coroutine that runs off its end calls
 return_void()

---
 macoro/coro_frame.h | 7 +++++++
 macoro/macros.h     | 1 +
 2 files changed, 8 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index bc6d89e..18b378c 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -651,6 +651,13 @@ namespace macoro
 		}
 #endif
 
+		// called when the body runs off its end, as if by MC_RETURN_VOID().
+		void end_of_body()
+		{
+			if constexpr (requires(promise_type & p) { p.return_void(); })
+				promise.return_void();
+		}
+
 		// reports the current exception to the promise. If the promise 
 		// throws, the coroutine is considered to be at the final suspend point.
 		void unhandled_exception()
diff --git a/macoro/macros.h b/macoro/macros.h
index 1eb02d1..ce71130 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -218,6 +218,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 				std::terminate();																				\
 				break;																							\
 			}																									\
+			_macoro_frame_->end_of_body();																		\
 		}																										\
 		catch (...) {																							\
 			_macoro_frame_->destroyAwaiters();																	\
-- 
2.43.0


From 0a821a546680db418c970da76f8ff536a48d91b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 37/48] fix: wrap() forwards the location of the await to the
 wrapped awaiter

---
 macoro/wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/wrap.h b/macoro/wrap.h
index 21028c6..957409f 100644
--- a/macoro/wrap.h
+++ b/macoro/wrap.h
@@ -32,7 +32,7 @@ namespace macoro
 			template<typename Handle>
 			auto await_suspend(Handle h)
 			{
-				if constexpr (requires(awaiter_storage m_awaiter) { { m_awaiter.await_suspend(h, m_loc) } -> std::convertible_to<int>; })
+				if constexpr (requires { m_awaiter.await_suspend(h, m_loc); })
 				{
 					return m_awaiter.await_suspend(h, m_loc);
 				}
-- 
2.43.0


From 77270791dbef8088e84a181b14e21a3483e89be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 38/48] fix: a trace names the location of awaits of macro
 coroutines

---
 macoro/coro_frame.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 18b378c..651d296 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -8,6 +8,7 @@
 
 #include "macoro/config.h"
 #include "macoro/coroutine_handle.h"
+#include <source_location>
 #include <array>
 #include <vector>
 #include <cstddef>
@@ -107,6 +108,16 @@ namespace macoro
 		}
 	}
 
+	// call a.await_suspend(h) on behalf of the await expression at loc. 
+	template<typename Awaiter, typename Handle>
+	decltype(auto) await_suspend_at(Awaiter& a, Handle& h, const std::source_location& loc)
+	{
+		if constexpr (requires { a.await_suspend(h, loc); })
+			return a.await_suspend(h, loc);
+		else
+			return a.await_suspend(h);
+	}
+
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
@@ -115,10 +126,11 @@ namespace macoro
 		||
 		has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
+		, empty_state> = {},
+		std::source_location loc = std::source_location::current()) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
-		a.await_suspend(h2);
+		await_suspend_at(a, h2, loc);
 		return { true };
 	}
 
@@ -130,11 +142,12 @@ namespace macoro
 		||
 		has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
+		, empty_state> = {},
+		std::source_location loc = std::source_location::current()) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
-		return { a.await_suspend(h2) };
+		return { await_suspend_at(a, h2, loc) };
 	}
 
 
@@ -148,7 +161,8 @@ namespace macoro
 		!has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value &&
 		!has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
+		, empty_state> = {},
+		std::source_location loc = std::source_location::current()) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		//auto h2 = ;
@@ -170,21 +184,21 @@ namespace macoro
 			using promise_type = typename coroutine_handle_traits<handle_type>::promise_type;
 			if constexpr (std::is_convertible<handle_type, coroutine_handle<>>::value)
 			{
-				auto ret = a.await_suspend(h);
+				auto ret = await_suspend_at(a, h, loc);
 				return await_suspend_t<coroutine_handle<promise_type>>{ ret, h != ret  };
 			}
 			else
 			{
 				// once suspended, h might be destroyed. get its std handle first.
 				auto hstd = h.std_cast();
-				auto ret = a.await_suspend(h);
+				auto ret = await_suspend_at(a, h, loc);
 				return await_suspend_t<coroutine_handle<promise_type>>{ coroutine_handle<promise_type>(ret), hstd != ret  };
 			}
 		}
 		else
 		{
 			auto hstd = h.std_cast();
-			auto ret = a.await_suspend(hstd);
+			auto ret = await_suspend_at(a, hstd, loc);
 			return await_suspend_t<coroutine_handle<void>>{ coroutine_handle<void>(ret), hstd != ret  };
 		}
 	}
-- 
2.43.0


From e7d50c8be4334455d94c89100003030f80c789d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 39/48] fix: traces continue through the void members of a
 when_all

---
 macoro/detail/when_all_task.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macoro/detail/when_all_task.h b/macoro/detail/when_all_task.h
index a30b974..cf941ad 100644
--- a/macoro/detail/when_all_task.h
+++ b/macoro/detail/when_all_task.h
@@ -222,7 +222,12 @@ namespace macoro
 
 			//private:
 
-			when_all_ready_awaitable_base* m_awaitable;
+			traceable* get_traceable()
+			{
+				return m_awaitable;
+			}
+
+			when_all_ready_awaitable_base* m_awaitable = nullptr;
 			coroutine_handle_type m_type;
 			//when_all_counter* m_counter;
 			std::exception_ptr m_exception;
-- 
2.43.0


From b583846d335e58128eb2dc7152bcec91b9284e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 40/48] fix: when_all_ready_awaitable called a member function
 before its base is constructed

---
 macoro/detail/when_all_awaitable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/detail/when_all_awaitable.h b/macoro/detail/when_all_awaitable.h
index 511bb67..e03808b 100644
--- a/macoro/detail/when_all_awaitable.h
+++ b/macoro/detail/when_all_awaitable.h
@@ -90,7 +90,7 @@ namespace macoro
 		{
 		public:
 
-			size_t tasks_size(TASK_CONTAINER& tasks)
+			static size_t tasks_size(TASK_CONTAINER& tasks)
 			{
 				if constexpr (is_tuple<TASK_CONTAINER>::value)
 					return std::tuple_size<TASK_CONTAINER>::value;
-- 
2.43.0


From bf066d77315c212030c48e28920f57d4f36c651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 41/48] fix: await_transform does not apply to initial/final
 suspend and yield of macro coroutines

---
 macoro/coro_frame.h |  7 ++++++
 macoro/macros.h     | 60 +++++++++++++++++++++++++--------------------
 2 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 651d296..2e8334d 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -280,9 +280,14 @@ namespace macoro
 
 
 
+	// stands in for the promise when await_transform does not apply, that is
+	// for the initial and final suspend and for the result of yield_value.
+	struct no_await_transform {};
+
 	template<typename Promise, size_t idx, typename Expr>
 	struct AwaitContext
 	{
+		// what await_transform is called on.
 		using promise_type = Promise;
 		using expression_type = Expr;
 		static const size_t suspend_index = idx;
@@ -362,6 +367,8 @@ namespace macoro
 		promise_type promise;
 
 
+		no_await_transform _no_await_transform_;
+
 		bool _initial_suspend_await_resumed_called_ = false;
 
 		// true if the coroutine was last resumed using the std handle.
diff --git a/macoro/macros.h b/macoro/macros.h
index ce71130..ebccbee 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -26,20 +26,26 @@
 // the value returned from the function.
 // 
 // Then we have the awaiter, we call await_ready and await_suspend.
-#define IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)																	\
+//
+// PROMISE is what await_transform is called on, if it has one. As with native
+// coroutines, the initial and final suspend and yield_value are not transformed.
+#define IMPL_MC_TRANSFORM _macoro_frame_->promise
+#define IMPL_MC_NO_TRANSFORM _macoro_frame_->_no_await_transform_
+
+#define IMPL_MC_AWAIT_TYPES(EXPRESSION, PROMISE, SUSPEND_IDX)																	\
 	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
-	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
+	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<std::remove_reference_t<decltype(PROMISE)>, SUSPEND_IDX,		\
 		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>;						\
 	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;
 
 // The second part of IMPL_MC_AWAIT_CORE_NS, see above. IMPL_MC_AWAIT_TYPES must be in scope.
-#define IMPL_MC_AWAIT_BODY(EXPRESSION, SUSPEND_IDX)																		\
+#define IMPL_MC_AWAIT_BODY(EXPRESSION, PROMISE, SUSPEND_IDX)																		\
 	{																													\
 		auto& _macoro_promise = _macoro_frame_->promise;																\
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
 		auto& _macoro_ctx = _macoro_frame_->template makeAwaitContext<MACORO_CAT(_macoro_AwaitContext, SUSPEND_IDX)>();	\
 		_macoro_ctx.expr.ptr      = new (_macoro_ctx.expr.v())      typename decltype(_macoro_ctx.expr)::Constructor(EXPRESSION);															\
-		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(macoro::get_awaitable(_macoro_promise, _macoro_ctx.expr.get()));	\
+		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(macoro::get_awaitable(PROMISE, _macoro_ctx.expr.get()));	\
 		_macoro_ctx.awaiter.ptr   = new (_macoro_ctx.awaiter.v())   typename decltype(_macoro_ctx.awaiter)::Constructor(macoro::get_awaiter(_macoro_ctx.awaitable.get()));					\
 		auto& _macoro_awaiter = _macoro_ctx.awaiter.getRef();													\
 		*_macoro_ctx.awaiter_ptr = (void*)&_macoro_awaiter;														\
@@ -56,22 +62,22 @@
 		}																										\
 	}																					
 
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)																	\
-	IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)																		\
-	IMPL_MC_AWAIT_BODY(EXPRESSION, SUSPEND_IDX)
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, PROMISE, SUSPEND_IDX)																	\
+	IMPL_MC_AWAIT_TYPES(EXPRESSION, PROMISE, SUSPEND_IDX)																\
+	IMPL_MC_AWAIT_BODY(EXPRESSION, PROMISE, SUSPEND_IDX)
 
 // This macro expands out to generated the await_ready and await_suspend calls.
 // It defines a suspension point but does not call await_resume. This should be
 // used with other macros which perform the await_resume call.
-#define IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)	IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)				\
+#define IMPL_MC_AWAIT_CORE(EXPRESSION, PROMISE, SUSPEND_IDX)	IMPL_MC_AWAIT_CORE_NS(EXPRESSION, PROMISE, SUSPEND_IDX)	\
 			MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):		
 
 // a helper macro that defines a basic co_await expression. 
 // RETURN_SLOT can be used to set a variable to the result of the co_await expression.
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
-#define IMPL_MC_AWAIT(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)														\
+#define IMPL_MC_AWAIT(EXPRESSION, RETURN_SLOT, PROMISE, SUSPEND_IDX)													\
 				do {																							\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, PROMISE, SUSPEND_IDX)													\
 					/*<resume-point>*/																			\
 					RETURN_SLOT _macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume();		\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
@@ -82,9 +88,9 @@
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
 #define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
 				do{																								\
-					IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)												\
+					IMPL_MC_AWAIT_TYPES(EXPRESSION, IMPL_MC_TRANSFORM, SUSPEND_IDX)												\
 					/*the expression, await_ready and await_suspend can throw before we are suspended.*/		\
-					try { IMPL_MC_AWAIT_BODY(EXPRESSION, SUSPEND_IDX) }											\
+					try { IMPL_MC_AWAIT_BODY(EXPRESSION, IMPL_MC_TRANSFORM, SUSPEND_IDX) }											\
 					catch (...)																					\
 					{																							\
 						_macoro_frame_->cancelAwaiter(SUSPEND_IDX);												\
@@ -101,9 +107,9 @@
 // A helper macro that implements the MC_YIELD_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of promise.yield_value(awaiter.await_resume()).
 #define IMPL_MC_YIELD_AWAIT(EXPRESSION, SUSPEND_IDX)															\
-				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)												\
+				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, IMPL_MC_TRANSFORM, SUSPEND_IDX)												\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ,__COUNTER__);\
+					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), , IMPL_MC_NO_TRANSFORM, __COUNTER__);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
@@ -111,18 +117,18 @@
 // A helper macro that implements the MC_AWAIT_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of awaiter.await_resume().
 #define IMPL_MC_AWAIT_AWAIT(EXPRESSION, SUSPEND_IDX)															\
-				do{	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+				do{	IMPL_MC_AWAIT_CORE(EXPRESSION, IMPL_MC_TRANSFORM, SUSPEND_IDX)													\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume(), ,__COUNTER__);\
+					IMPL_MC_AWAIT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume(), , IMPL_MC_TRANSFORM, __COUNTER__);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
 
 // A helper macro that implements the MC_AWAIT_FN. We first perform a normal co_await
 // and then we call the function with the await_resume result as the parameter.
-#define IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, OPTIONAL_GOTO, SUSPEND_IDX)										\
+#define IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, OPTIONAL_GOTO, PROMISE, SUSPEND_IDX)										\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, PROMISE, SUSPEND_IDX)													\
 					/*<resume-point>*/																			\
 					FN_SLOT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume());							\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
@@ -141,7 +147,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 			{																									\
 			case (std::size_t)::macoro::SuspensionPoint::InitialSuspendBegin:												\
 				do {																								\
-					IMPL_MC_AWAIT_CORE(_macoro_frame_->promise.initial_suspend(), MACORO_INITIAL_SUSPEND_IDX)	\
+					IMPL_MC_AWAIT_CORE(_macoro_frame_->promise.initial_suspend(), IMPL_MC_NO_TRANSFORM, MACORO_INITIAL_SUSPEND_IDX)	\
 					_macoro_frame_->_initial_suspend_await_resumed_called_ = true;								\
 					_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,MACORO_INITIAL_SUSPEND_IDX)>().await_resume();			\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,MACORO_INITIAL_SUSPEND_IDX)>();						\
@@ -160,7 +166,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // Calls the given function on the result of the co_await expression. This is equivalent to
 // `f(co_await EXPRESSION)` where f is the function name provided.
-#define MC_AWAIT_FN(FN_SLOT, EXPRESSION)	IMPL_MC_AWAIT_FN(FN_SLOT,EXPRESSION, , __COUNTER__)					
+#define MC_AWAIT_FN(FN_SLOT, EXPRESSION)	IMPL_MC_AWAIT_FN(FN_SLOT,EXPRESSION, , IMPL_MC_TRANSFORM, __COUNTER__)					
 
 // Returns void. Equivalent to `co_return;`
 #define MC_RETURN_VOID()																						\
@@ -175,12 +181,12 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_await expression. This is equivalent to
 // `co_await EXPRESSION`
-#define MC_AWAIT(EXPRESSION)				IMPL_MC_AWAIT(EXPRESSION, , __COUNTER__)
+#define MC_AWAIT(EXPRESSION)				IMPL_MC_AWAIT(EXPRESSION, , IMPL_MC_TRANSFORM, __COUNTER__)
 
 
 // perform a basic co_await expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_await EXPRESSION`
-#define MC_AWAIT_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(EXPRESSION, VARIABLE = , __COUNTER__)
+#define MC_AWAIT_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(EXPRESSION, VARIABLE = , IMPL_MC_TRANSFORM, __COUNTER__)
 
 
 // perform a basic co_await expression and set VARIABLE to the Ok(result) or Err(std::current_exception()). This is equivalent to
@@ -190,21 +196,21 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_await expression and return to the result. This is equivalent to
 // `co_return co_await EXPRESSION`
-#define MC_RETURN_AWAIT(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, EXPRESSION, goto MACORO_FINAL_SUSPEND_BEGIN;,__COUNTER__)
+#define MC_RETURN_AWAIT(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, EXPRESSION, goto MACORO_FINAL_SUSPEND_BEGIN;, IMPL_MC_TRANSFORM, __COUNTER__)
 
 
 // perform a basic co_yeild expression. This is equivalent to
 // `co_yeild EXPRESSION`
-#define MC_YIELD(EXPRESSION)				MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD(EXPRESSION)				IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION), , IMPL_MC_NO_TRANSFORM, __COUNTER__);
 
 
 // perform a basic co_yeild expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_yeild EXPRESSION`
-#define MC_YIELD_SET(VARIABLE, EXPRESSION)	MC_AWAIT_SET(VARIABLE , _macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION), VARIABLE = , IMPL_MC_NO_TRANSFORM, __COUNTER__);
 
 // perform a basic co_yeild expression and return to the result. This is equivalent to
 // `co_return co_yeild EXPRESSION`
-#define MC_RETURN_YIELD(EXPRESSION)			MC_RETURN_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_RETURN_YIELD(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, _macoro_frame_->promise.yield_value(EXPRESSION), goto MACORO_FINAL_SUSPEND_BEGIN;, IMPL_MC_NO_TRANSFORM, __COUNTER__);
 
 #define MC_UNHANDLED_EXCEPTION _macoro_frame_->unhandled_exception()
 
@@ -230,7 +236,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 goto MACORO_FINAL_SUSPEND_BEGIN; /*prevents unused warning*/													\
 MACORO_FINAL_SUSPEND_BEGIN:																						\
 		_macoro_frame_->final_suspend();																		\
-		IMPL_MC_AWAIT_CORE_NS(_macoro_frame_->promise.final_suspend(), MACORO_FINAL_SUSPEND_IDX)				\
+		IMPL_MC_AWAIT_CORE_NS(_macoro_frame_->promise.final_suspend(), IMPL_MC_NO_TRANSFORM, MACORO_FINAL_SUSPEND_IDX)				\
 MACORO_FINAL_SUSPEND_RESUME:																					\
 		_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext, MACORO_FINAL_SUSPEND_IDX)>().await_resume();	\
 		_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext, MACORO_FINAL_SUSPEND_IDX)>();	\
-- 
2.43.0


From 56d5e7d1140b6d3529f5edb8888ec17f877e05a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 42/48] fix: a task leaks its value if an exception follows the
 return

---
 macoro/task.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/task.h b/macoro/task.h
index 78b49e8..df1a65d 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -243,6 +243,10 @@ namespace macoro
 
 			void unhandled_exception() noexcept
 			{
+				// a destructor can throw after the value was returned.
+				if (m_resultType == result_type::value)
+					m_value.~T();
+
 				::new (static_cast<void*>(std::addressof(m_exception))) std::exception_ptr(
 					std::current_exception());
 				m_resultType = result_type::exception;
-- 
2.43.0


From 51e134431786179fa2eeb04ba9dd93cf0317c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 43/48] fix: a failed allocation in an await of a macro
 coroutine crashed

---
 macoro/coro_frame.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 2e8334d..34df847 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -426,6 +426,8 @@ namespace macoro
 				assert(aa.suspend_index != CTX::suspend_index);
 #endif
 
+			// the context is only listed once both allocations were made.
+			std::unique_ptr<CTX> ctx_owner(new CTX);
 			awaiters.emplace_back();
 			auto& d = awaiters.back();
 #ifndef NDEBUG
@@ -433,7 +435,7 @@ namespace macoro
 #endif
 			d.suspend_index = CTX::suspend_index;
 
-			auto ctx = new CTX;
+			auto ctx = ctx_owner.release();
 			d._ctx_ptr = ctx;
 
 			d._awaiter_deleter = [](void* ptr)
-- 
2.43.0


From f367798f9c75fb28e50a0b9d101d94cd6a896c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 44/48] fix: move-assigning a blocking_task to itself left it
 with a destroyed coroutine

---
 macoro/sync_wait.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 2c48cbf..4370dfd 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -155,8 +155,12 @@ namespace macoro
 			: m_handle(std::exchange(other.m_handle, nullptr))
 		{}
 		blocking_task& operator=(blocking_task&& h) {
-			this->~blocking_task();
-			m_handle = std::exchange(h.m_handle, std::nullptr_t{});
+			if (this != &h)
+			{
+				if (m_handle)
+					m_handle.destroy();
+				m_handle = std::exchange(h.m_handle, std::nullptr_t{});
+			}
 			return *this;
 		}
 
-- 
2.43.0


From a1aebd40b3e4f74cb9cc8bc99dea1ef5801866cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 45/48] fix: a trace named a line inside the library for
 sync_wait and make_blocking used with a pipe

---
 macoro/sync_wait.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 4370dfd..0cd252b 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -197,13 +197,13 @@ namespace macoro
 	}
 
 
-	struct make_blocking_t { };
-	inline make_blocking_t make_blocking() { return {}; }
+	struct make_blocking_t { std::source_location m_loc; };
+	inline make_blocking_t make_blocking(std::source_location loc = std::source_location::current()) { return { loc }; }
 
 	template<typename awaitable>
-	decltype(auto) operator|(awaitable&& a, make_blocking_t)
+	decltype(auto) operator|(awaitable&& a, make_blocking_t b)
 	{
-		return make_blocking(std::forward<awaitable>(a));
+		return make_blocking(std::forward<awaitable>(a), b.m_loc);
 	}
 
 	template<typename Awaitable>
@@ -221,13 +221,13 @@ namespace macoro
 		}
 	}
 
-	struct sync_wait_t { };
-	inline sync_wait_t sync_wait() { return {}; }
+	struct sync_wait_t { std::source_location m_loc; };
+	inline sync_wait_t sync_wait(std::source_location loc = std::source_location::current()) { return { loc }; }
 
 
 	template<typename awaitable>
-	decltype(auto) operator|(awaitable&& a, sync_wait_t)
+	decltype(auto) operator|(awaitable&& a, sync_wait_t s)
 	{
-		return sync_wait(std::forward<awaitable>(a));
+		return sync_wait(std::forward<awaitable>(a), s.m_loc);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From aca4e13b5b9f611e86f566543fd50710fc3eebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 46/48] fix: a scoped task leaked its value when a destructor
 threw after it was returned

---
 macoro/detail/scoped_task_promise.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 07498ff..467efc0 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -326,6 +326,13 @@ namespace macoro
 
 			void unhandled_exception() noexcept
 			{
+				// a destructor can throw after the value was returned.
+				if constexpr (!std::is_void_v<T> && !std::is_reference_v<T>)
+				{
+					if (m_result_type == result_type::value)
+						this->m_value.~T();
+				}
+
 				::new (static_cast<void*>(std::addressof(this->m_exception))) std::exception_ptr(
 					std::current_exception());
 				m_result_type = result_type::exception;
-- 
2.43.0


From 1daa69f596fbc8185fb1362babcfcdbf19ca25ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 47/48] fix: a wrapped awaitable could not be awaited as an
 lvalue when its awaiter for lvalues is another type

---
 macoro/wrap.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/macoro/wrap.h b/macoro/wrap.h
index 957409f..e90dd62 100644
--- a/macoro/wrap.h
+++ b/macoro/wrap.h
@@ -12,13 +12,16 @@ namespace macoro
 	template<typename awaitable>
 	struct wrapped_awaitable
 	{
-		using traits = awaitable_traits<awaitable>;
 		using awaitable_storage = remove_rvalue_reference_t<awaitable>;
-		using awaiter_storage = remove_rvalue_reference_t<typename traits::awaiter>;
-		using awaitar_result = remove_rvalue_reference_t<typename traits::await_result>;
 
+		// awaitable_ref is how the awaitable is awaited. Awaiting it as
+		// an lvalue can have a different awaiter and result.
+		template<typename awaitable_ref>
 		struct awaiter
 		{
+			using traits = awaitable_traits<awaitable_ref>;
+			using awaiter_storage = remove_rvalue_reference_t<typename traits::awaiter>;
+			using awaitar_result = remove_rvalue_reference_t<typename traits::await_result>;
 
 			awaiter_storage m_awaiter;
 			std::source_location m_loc;
@@ -76,14 +79,14 @@ namespace macoro
 
 		awaitable_storage m_awaitable;
 
-		awaiter operator co_await()&
+		auto operator co_await()&
 		{
-			return awaiter{ get_awaiter(m_awaitable) };
+			return awaiter<awaitable_storage&>{ get_awaiter(m_awaitable) };
 		}
 
-		awaiter operator co_await()&&
+		auto operator co_await()&&
 		{
-			return awaiter{ get_awaiter(std::forward<awaitable>(m_awaitable)) };
+			return awaiter<awaitable>{ get_awaiter(std::forward<awaitable>(m_awaitable)) };
 		}
 	};
 
-- 
2.43.0


From b19e933e8da87ab1776d9d79deee72cac8b8f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 48/48] fix: a scoped task reported ready did not make its
 work's effects visible to the thread that asked

---
 macoro/async_scope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index ee9cb0d..0175763 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -51,7 +51,7 @@ namespace macoro
 		{
 			if (m_coroutine)
 			{
-				auto v = m_coroutine.promise().m_completion_state.load(std::memory_order_relaxed);
+				auto v = m_coroutine.promise().m_completion_state.load(std::memory_order_acquire);
 				return v & (unsigned char)promise_type::completion_state::has_completed;
 			}
 			return false;
-- 
2.43.0

