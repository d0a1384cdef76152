import sys,os; sys.path.insert(0,os.environ.get('VERIF_ROOT','/verif')+'/tools')
from mkseed import seed
ONLY=set(sys.argv[1:])
def S(id,*a,**k):
    if not ONLY or id in ONLY: seed(id,*a,**k)
def h(*inc): return ''.join('#include "macoro/%s"\n'%i for i in inc)+'#include <cstdio>\n#include <cstdlib>\n#include <memory>\n#include <vector>\n#include <chrono>\n#include <thread>\n#include <string>\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); fflush(stdout); _Exit(1); } } while (0)\nusing namespace macoro; using namespace std::chrono_literals;\n'
TSAN="-O1 -g -fsanitize=thread"
CHAOS='''// every atomic operation may take long
#include <bits/stdc++.h>
inline void chaos() { static thread_local unsigned x = (unsigned)std::hash<std::thread::id>{}(std::this_thread::get_id()) ^ (unsigned)std::chrono::steady_clock::now().time_since_epoch().count(); x = x * 1664525 + 1013904223; if ((x >> 16 & 3) == 0) for (volatile unsigned k = 0; k < (x >> 21); k = k + 1) ; }
namespace std
{
    template<class T> struct chaos_atomic : atomic<T>
    {
        using B = atomic<T>; using B::B; chaos_atomic() = default;
        T operator=(T v) noexcept { store(v); return v; }
        operator T() const noexcept { return load(); }
        T load(memory_order o = memory_order_seq_cst) const noexcept { chaos(); T v = B::load(o); chaos(); return v; }
        void store(T v, memory_order o = memory_order_seq_cst) noexcept { chaos(); B::store(v, o); chaos(); }
        T exchange(T v, memory_order o = memory_order_seq_cst) noexcept { chaos(); T r = B::exchange(v, o); chaos(); return r; }
        template<class... A> bool compare_exchange_strong(T& e, T d, A... a) noexcept { chaos(); bool r = B::compare_exchange_strong(e, d, a...); chaos(); return r; }
        template<class... A> bool compare_exchange_weak(T& e, T d, A... a) noexcept { chaos(); bool r = B::compare_exchange_weak(e, d, a...); chaos(); return r; }
        template<class U> T fetch_add(U d, memory_order o = memory_order_seq_cst) noexcept { chaos(); T r = B::fetch_add(d, o); chaos(); return r; }
        template<class U> T fetch_sub(U d, memory_order o = memory_order_seq_cst) noexcept { chaos(); T r = B::fetch_sub(d, o); chaos(); return r; }
        template<class U> T fetch_or(U d, memory_order o = memory_order_seq_cst) noexcept { chaos(); T r = B::fetch_or(d, o); chaos(); return r; }
        template<class U> T fetch_and(U d, memory_order o = memory_order_seq_cst) noexcept { chaos(); T r = B::fetch_and(d, o); chaos(); return r; }
    };
}
#define atomic chaos_atomic
'''

S('task_void_error_once','C01','awaiting a failed void task a second time, as an lvalue','the error of a void task is handed over by the first await; a second await of the same task reports success',
 'task.h','''			void result()
			{
				if (m_exception)
				{
					std::rethrow_exception(m_exception);
				}
			}
''','''			void result()
			{
				if (m_exception)
				{
					std::rethrow_exception(std::exchange(m_exception, nullptr));
				}
			}
''',h('task.h','sync_wait.h')+'''
task<> bad() { throw 7; co_return; }
task<int> twice() { auto t = bad(); int n = 0; for (int i = 0; i < 2; ++i) { try { co_await t; } catch (int e) { n += e; } } co_return n; }
int main() { CHECK(sync_wait(twice()) == 14); }
''')

S('eager_publish_first','C02','the eager task finishing on another thread between the two writes of its awaiter','the awaiter announces itself before it stored what is to be resumed',
 'task.h','''				m_continuation = continuation;
				return has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
''','''				const bool completed = has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
				if (!completed)
					m_continuation = continuation;
				return completed;
''',h('task.h','sync_wait.h','thread_pool.h')+'''
eager_task<int> e(thread_pool& p) { co_await p.schedule(); co_return 1; }
task<int> l(thread_pool& p) { int s = 0; for (int i = 0; i < 20000; ++i) { auto t = e(p); s += co_await t; } co_return s; }
int main() { thread_pool::work w; thread_pool p(1, w); CHECK(sync_wait(l(p)) == 20000); w.reset(); p.join(); }
''',flags=TSAN)

S('scoped_assign_leaks','C03','assigning a new scoped task over one whose work has not finished','the old task is not told that nobody holds it any more: its coroutine is never released',
 'async_scope.h','''				if (m_coroutine)
					this->~scoped_task();
''','''				if (is_ready())
					this->~scoped_task();
''',h('async_scope.h','manual_reset_event.h','task.h','sync_wait.h')+'''
struct Obj { std::shared_ptr<int> p; };
task<int> nap(async_manual_reset_event& ev, std::shared_ptr<int> p) { co_await ev; co_return *p; }
task<> body(std::weak_ptr<int>& wp)
{
    async_scope s; async_manual_reset_event ev; auto p = std::make_shared<int>(3); wp = p;
    auto t = s.add(nap(ev, p)); t = s.add(nap(ev, p)); p.reset();
    ev.set(); int v = co_await std::move(t); CHECK(v == 3); co_await s;
}
int main() { std::weak_ptr<int> wp; sync_wait(body(wp)); CHECK(wp.expired()); }
''',flags="-O1 -g")

S('blocking_set_unlocked','C06','the blocked thread waking up and destroying its handle before the notifying thread is done','the completion is signalled after the lock was released: the waiter can already have destroyed the condition variable',
 'sync_wait.h','''				std::lock_guard<std::mutex> lock(this->m_mutex);
				this->m_is_set = true;
				this->m_cv.notify_all();
''','''				{
					std::lock_guard<std::mutex> lock(this->m_mutex);
					this->m_is_set = true;
				}
				this->m_cv.notify_all();
''',h('task.h','sync_wait.h','thread_pool.h')+'''
task<int> l(thread_pool& p) { co_await p.schedule(); co_return 1; }
int main() { thread_pool::work w; thread_pool p(2, w); int s = 0; for (int i = 0; i < 20000; ++i) s += sync_wait(l(p)); CHECK(s == 20000); w.reset(); p.join(); }
''',flags=TSAN)

S('scope_drop_unlocked','C08','dropping a failed scoped task while another thread adds its own error to the scope','the list of errors of a scope is changed by a dropped task without holding the lock',
 'async_scope.h','''					std::lock_guard<std::mutex> lock(promise.m_scope->m_exception_mutex);
					promise.m_scope->m_exceptions.push_back(std::move(promise.m_exception));
''','''					promise.m_scope->m_exceptions.push_back(std::move(promise.m_exception));
''',h('async_scope.h','task.h','sync_wait.h','thread_pool.h')+'''
task<> bad(thread_pool& p, bool go) { if (go) co_await p.schedule(); throw 1; }
task<int> body(thread_pool& p)
{
    async_scope s; int n = 0;
    for (int i = 0; i < 3000; ++i) { { auto a = s.add(bad(p, true)); } { auto b = s.add(bad(p, false)); } }
    try { co_await s; } catch (async_scope_exception& e) { n = (int)e.m_exceptions.size(); }
    co_return n;
}
int main() { thread_pool::work w; thread_pool p(2, w); CHECK(sync_wait(body(p)) == 6000); w.reset(); p.join(); }
''',flags=TSAN)

S('group_body_unlocked','C09','the body of a group failing while dropped spawned work fails on another thread','the error of the body is added to the list of the group without holding the lock: the two threads corrupt it',
 'when_all_scope.h','''				std::lock_guard<std::mutex> lock(m_scope.m_exception_mutex);
				m_scope.m_exceptions.push_back(std::current_exception());
''','''				m_scope.m_exceptions.push_back(std::current_exception());
''',h('when_all_scope.h','task.h','sync_wait.h','thread_pool.h')+'''
task<> bad(thread_pool& p) { co_await p.schedule(); throw 1; }
when_all_scope group(thread_pool& p) { for (int i = 0; i < 3; ++i) co_await scoped(bad(p)); throw 2; }
task<> body(thread_pool& p) { for (int i = 0; i < 4000; ++i) { try { co_await group(p); } catch (...) {} } }
int main() { thread_pool::work w; thread_pool p(2, w); sync_wait(body(p)); w.reset(); p.join(); }
''',flags=TSAN)

S('mpsc_requeue_last','C14','several consumers waiting for different targets, and a slot being published by another thread while they are put back in the queue','after putting waiters back the earliest target is looked for, but the last one seen is used: a waiter with an earlier target is not woken',
 'sequence_mpsc.h','''					// Not ready yet.
					minDiff = diff < minDiff ? diff : minDiff;
''','''					// Not ready yet.
					minDiff = diff;
''',h('sequence_mpsc.h','task.h','sync_wait.h','thread_pool.h')+'''
using S = sequence_mpsc<std::size_t>;
task<> w(thread_pool& p, S& s, std::size_t t, std::atomic<int>& n, std::atomic<int>& reg) { co_await p.schedule(); ++reg; co_await s.wait_until_published(t, std::size_t(-1)); ++n; }
// slots 0..7: a publishes 0 while b publishes 1.  The waiters want 1, 2 and 7.
int main()
{
    thread_pool::work wk; thread_pool p(2, wk);
    auto end = std::chrono::steady_clock::now() + 40s;
    for (int r = 0; r < 400000 && std::chrono::steady_clock::now() < end; ++r) {
        sequence_barrier<std::size_t> cb; S s(cb, 8);
        for (int i = 0; i < 8; ++i) { auto c = [&]() -> task<> { co_await s.claim_one(); }; sync_wait(c()); }
        int n1 = 0, n2 = 0, n7 = 0; std::atomic<int> go{0};
        auto wait = [&](std::size_t t, std::atomic<int>& n) -> eager_task<> { co_await s.wait_until_published(t, std::size_t(-1)); ++n; };
        std::atomic<int> a1{0}, a2{0}, a7{0};
        auto e7 = (r & 1) ? wait(7, a7) : wait(2, a2); auto e2 = (r & 1) ? wait(2, a2) : wait(7, a7); auto e1 = wait(1, a1);
        std::atomic<int> done{0};
        auto pub = [&](std::size_t k) -> eager_task<> { co_await p.schedule(); ++go; while (go < 2) ; s.publish(k); ++done; };
        auto x = pub(0), y = pub(1); while (done < 2) std::this_thread::yield();
        CHECK(a1 == 1);
        s.publish(2); CHECK(a2 == 1); for (std::size_t k = 3; k < 8; ++k) s.publish(k); CHECK(a7 == 1);
        sync_wait(std::move(x)); sync_wait(std::move(y)); (void)n1; (void)n2; (void)n7;
    }
    wk.reset(); p.join();
}
''',flags="-O2 -g",to=120)

S('channel_publish_relaxed','C16','a receiver that finds a value published without having to wait for it, on another thread than its sender','a sender announces its slot with a relaxed store: the receiver can see the announcement before the value, or the sender miss the waiting receiver',
 'sequence_mpsc.h','''		m_published[sequence & m_sequenceMask].store(sequence, std::memory_order_seq_cst);
''','''		m_published[sequence & m_sequenceMask].store(sequence, std::memory_order_relaxed);
''',h('channel.h','task.h','sync_wait.h','thread_pool.h')+'''
int main()
{
    auto [s, r] = mpsc::make_channel<std::string>(65536);
    auto snd = [](mpsc::channel_sender<std::string> s) -> task<> { for (int i = 0; i < 20000; ++i) { auto v = co_await s.push(); v = std::string("x"); v.publish(); } };
    auto rcv = [](mpsc::channel_receiver<std::string> r) -> task<int> { int n = 0; for (int i = 0; i < 60000; ++i) { auto v = co_await r.pop(); n += (*v).size(); v.publish(); } co_return n; };
    auto c = rcv(std::move(r)) | make_eager(); std::vector<std::thread> t;
    for (int i = 0; i < 3; ++i) t.emplace_back([&snd, s = s]() mutable { sync_wait(snd(s)); });
    for (auto& x : t) x.join();
    CHECK(sync_wait(std::move(c)) == 60000);
}
''',flags=TSAN)

S('stop_claim_nonatomic','C18','a stop request on another thread claiming the callback at the moment its registration notices the request','a registration that races with the request takes itself back with a separate read and write: the callback runs twice, or after it was destroyed',
 'detail/stop_state.cpp','''		auto* oldValue = registration;
		const bool deregisteredSuccessfully =
			entry.compare_exchange_strong(oldValue, nullptr, std::memory_order_relaxed);
		if (deregisteredSuccessfully)
		{
''','''		const bool deregisteredSuccessfully =
			entry.load(std::memory_order_relaxed) == registration;
		if (deregisteredSuccessfully)
		{
			entry.store(nullptr, std::memory_order_relaxed);
''',h('stop.h')+'''
int main()
{
    // atomic operations are stretched at random (chaos.h)
    auto end = std::chrono::steady_clock::now() + 60s; long bad = -1;
    for (long r = 0; bad < 0 && r < 400000 && std::chrono::steady_clock::now() < end; ++r) {
        stop_source s; std::atomic<int> n{0}, go{0}; auto tok = s.get_token();
        std::thread t([&] { go = 1; s.request_stop(); });
        { while (!go) ; std::unique_ptr<stop_callback> c[4]; for (auto& x : c) x.reset(new stop_callback(tok, [&] { ++n; })); t.join(); if (n != 4) bad = n; }
    }
    if (bad >= 0) printf("4 callbacks ran %ld times\\n", bad);
    CHECK(bad < 0);
}
''',flags='-O1 -g -include "$D/chaos.h"',to=120,extra={'chaos.h':CHAOS})

S('work_assign_swap','C20','move-assigning one pool\'s work object over another\'s while the source object lives on','the work the target held is kept alive by the source object instead of being released: the first pool never drains',
 'thread_pool.h','''            work& operator=(work&& w) {
                reset();
                mEx = std::exchange(w.mEx, nullptr);
''','''            work& operator=(work&& w) {
                std::swap(mEx, w.mEx);
''',h('thread_pool.h')+'''
int main()
{
    thread_pool::work a, b; thread_pool p(1, a), q(1, b); a = std::move(b);
    std::atomic<bool> done{false}; std::thread t([&] { p.join(); done = true; });
    for (int i = 0; i < 500 && !done; ++i) std::this_thread::sleep_for(10ms);
    CHECK(done); t.join(); a.reset(); q.join();
}
''')

S('dispatch_other_pool','C21','dispatching to one pool from a thread of another pool','any pool thread counts as one of ours: the coroutine continues on the wrong pool',
 'thread_pool.h','''                if (mCurrentExecutor == this)
                    return true;''','''                if (mCurrentExecutor != nullptr)
                    return true;''',h('thread_pool.h','task.h','sync_wait.h')+'''
task<bool> hop(thread_pool& a, thread_pool& b) { co_await a.schedule(); auto i = std::this_thread::get_id(); co_await b.dispatch(); co_return i != std::this_thread::get_id(); }
int main() { thread_pool::work v, w; thread_pool a(1, v), b(1, w); CHECK(sync_wait(hop(a, b))); v.reset(); w.reset(); a.join(); b.join(); }
''')

S('delay_idx_reuse','C22','a delayed coroutine added after an earlier one was resumed, while another is still pending, and then cancelled','the number that identifies a delayed coroutine is used twice: a cancellation wakes the wrong one',
 'thread_pool.h','''                        idx = mDelayOpIdx++;''','''                        idx = mDelayHeap.size();''',h('thread_pool.h','task.h','sync_wait.h')+'''
eager_task<> nap(thread_pool& p, std::chrono::milliseconds d, stop_token t, std::atomic<int>& done) { co_await p.schedule_after(d, t); ++done; }
int main()
{
    thread_pool::work w; thread_pool p(1, w); stop_source a, b, c; std::atomic<int> da{0}, db{0}, dc{0};
    auto ta = nap(p, 50ms, a.get_token(), da); auto tb = nap(p, 20000ms, b.get_token(), db);
    while (!da) std::this_thread::sleep_for(5ms);
    auto tc = nap(p, 20000ms, c.get_token(), dc);
    c.request_stop(); for (int i = 0; i < 400 && !dc; ++i) std::this_thread::sleep_for(10ms);
    CHECK(dc == 1); CHECK(db == 0); b.request_stop(); sync_wait(std::move(ta)); sync_wait(std::move(tb)); sync_wait(std::move(tc)); w.reset(); p.join();
}
''')

S('take_until_error_waits','C23','the guarded awaitable failing before the trigger fires','the trigger is only told to stop if the awaitable succeeded: a failure is reported only when the trigger fires by itself',
 'take_until.h','''		request_stop(until);
''','''		if (!ex)
			request_stop(until);
''',h('take_until.h','timeout.h','thread_pool.h','task.h','sync_wait.h')+'''
task<int> bad() { throw 3; co_return 1; }
int main()
{
    thread_pool::work w; thread_pool p(1, w); timeout t(p, 8000ms); auto t0 = std::chrono::steady_clock::now(); int e = 0;
    try { sync_wait(take_until(bad(), std::move(t))); } catch (int x) { e = x; }
    CHECK(e == 3); CHECK(std::chrono::steady_clock::now() - t0 < 4s); w.reset(); p.join();
}
''')

S('trace_depth_limit','C26','a trace requested more than thirty-two awaits deep','a trace stops after thirty-two frames',
 'trace.h','''		void get_call_stack(std::vector<std::source_location>& stack) final override
		{
			stack.push_back(m_location);
			if (m_parent)
				m_parent->get_call_stack(stack);
''','''		void get_call_stack(std::vector<std::source_location>& stack) final override
		{
			stack.push_back(m_location);
			if (m_parent && stack.size() < 32)
				m_parent->get_call_stack(stack);
''',h('task.h','sync_wait.h','trace.h')+'''
task<int> f(int n) { if (n == 0) { auto t = co_await get_trace{}; co_return (int)t.stack.size(); } co_return co_await f(n - 1); }
int main() { int a = sync_wait(f(1)), b = sync_wait(f(100)); CHECK(b - a == 99); }
''')

S('eager_pipe_moves_lvalue','C27','piping an awaitable that can be copied, as an lvalue, into make_eager()','the caller\'s object is moved from although it was only lent',
 'task.h','''	inline auto operator|(AWAITABLE&& a, detail::make_eager_tag)
	{
		return make_eager(std::forward<AWAITABLE>(a));
''','''	inline auto operator|(AWAITABLE&& a, detail::make_eager_tag)
	{
		return make_eager(std::move(a));
''',h('task.h','sync_wait.h')+'''
struct A { std::vector<int> v; bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} void await_suspend(coroutine_handle<>) {} int await_resume() { return (int)v.size(); } };
int main() { A a{{1, 2, 3}}; auto t = a | make_eager(); CHECK(sync_wait(std::move(t)) == 3); CHECK(a.v.size() == 3); auto u = a | make_eager(); CHECK(sync_wait(std::move(u)) == 3); }
''')

S('try_void_keeps_error','C04','a try-await without a value into a variable that still holds the error of an earlier try-await','the variable keeps the old error although the second await succeeded',
 'result.h','''				a.await_resume();
				r = Ok();
''','''				a.await_resume();
''',h('result.h','macros.h','task.h','sync_wait.h')+'''
task<> maybe(int i) { if (i == 0) throw i; co_return; }
task<int> both() { MC_BEGIN(task<int>, i = int{}, r = result<void>{}, n = int{0}); for (i = 0; i < 3; ++i) { MC_AWAIT_TRY(r, maybe(i)); n = n * 2 + (r.has_error() ? 1 : 0); } MC_RETURN(n); MC_END(); }
int main() { CHECK(sync_wait(both()) == 4); }
''')

S('adapter_nested_resume','C05','a long chain of coroutines alternating between native and macro ones','a macro coroutine resumed through its standard handle resumes the next macro coroutine on its own stack instead of in the loop',
 'coro_frame.h','''						while (h != noop_coroutine() && h.is_std() == false)
						{
							auto realAddr = reinterpret_cast<FrameBase<void>*>((std::size_t)h.address() ^ 1);
							h = realAddr->resume(realAddr);
							assert(h);
						}
''','''						if (h != noop_coroutine() && h.is_std() == false)
						{
							h.resume();
							return std::noop_coroutine();
						}
''',h('macros.h','task.h','sync_wait.h')+'''
task<int> nat(int n); task<int> mac(int n);
task<int> nat(int n) { if (n == 0) co_return 0; int r = co_await mac(n - 1); co_return r + 1; }
task<int> mac(int n) { MC_BEGIN(task<int>, n, r = int{}); if (n == 0) MC_RETURN(0); MC_AWAIT_SET(r, n % 3 ? mac(n - 1) : nat(n - 1)); MC_RETURN(r + 1); MC_END(); }
int main() { CHECK(sync_wait(nat(300000)) == 300000); }
''',flags="-O2 -g")

S('result_void_ne','C24','comparing a successful void result with an error given as a temporary','a success is reported as not different from an error',
 'result.h','''		bool operator==(const detail::OkTag<void>& v) const
		{
			return has_value();
		}

		template<typename E2>
		bool operator==(detail::ErrorTag<E2>&& v)const
		{
			return (has_error() && error() == v.mE);
		}
		template<typename E2>
		bool operator==(detail::ErrorMvTag<E2>&& v)const
		{
			return (has_error() && error() == v.mE);
		}
''','''		bool operator==(const detail::OkTag<void>& v) const
		{
			return has_value();
		}

		template<typename E2>
		bool operator==(detail::ErrorTag<E2>&& v)const
		{
			return (has_error() && error() == v.mE);
		}
		template<typename E2>
		bool operator==(detail::ErrorMvTag<E2>&& v)const
		{
			return mVar.value_or(error_type{}) == v.mE;
		}
''',h('result.h')+'''
int main() { result<void, int> r, e = Err(4); CHECK(r != Err(3)); CHECK(r != Err(0)); CHECK(!(r == Err(0))); CHECK(e == Err(4)); CHECK(e != Err(0)); }
''')

S('wrap_slices_error','C25','an exception of a class derived from std::exception, inspected for what the derived class adds','a captured exception is rebuilt from its std::exception part: its own type is gone',
 'wrap.h','''				catch (...)
				{
					return Err(std::current_exception());
				}
''','''				catch (...)
				{
					auto error = std::current_exception();
					try { throw; }
					catch (std::runtime_error& e) { error = std::make_exception_ptr(e); }
					catch (...) {}
					return Err(error);
				}
''',h('wrap.h','task.h','sync_wait.h')+'''
struct My : std::runtime_error { int code; My(int c) : std::runtime_error("my"), code(c) {} };
task<int> bad() { throw My(7); co_return 1; }
int main() { auto r = sync_wait(wrap(bad())); CHECK(r.has_error()); int n = 0; try { std::rethrow_exception(r.error()); } catch (My& m) { n = m.code; } catch (...) { n = -1; } CHECK(n == 7); }
''')

S('stop_await_impossible','C19','awaiting a token that has no source','a token that can never be stopped suspends the coroutine that awaits it, for good',
 'stop.h','''			if (mtoken.stop_possible() && !mtoken.stop_requested())
''','''			if (!mtoken.stop_requested())
''',h('stop.h','task.h','sync_wait.h')+'''
eager_task<> wait(stop_token t, int& n) { co_await std::move(t); ++n; }
int main() { int n = 0; auto a = wait(stop_token{}, n); stop_token t; { stop_source s; t = s.get_token(); } auto b = wait(t, n); CHECK(n == 2); }
''')
