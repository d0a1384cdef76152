import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
H='''#include "macoro/%s"
#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { printf("failed: %%s\\n", #c); exit(1); } } while (0)
using namespace macoro;
'''
def h(*inc): return ''.join('#include "macoro/%s"\n'%i for i in inc)+'#include <cstdio>\n#include <cstdlib>\n#include <memory>\n#include <vector>\n#include <chrono>\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); fflush(stdout); _Exit(1); } } while (0)\nusing namespace macoro; using namespace std::chrono_literals;\n'

seed('stop_chunk_size','C17','more than 32 callbacks registered on one source by one thread, so that a second chunk with more entries than the first is used','a stop request looks at only as many entries of every later chunk as the first chunk has: callbacks in the rest never run',
 'detail/stop_state.cpp','''			auto* chunk = &list->m_headChunk;
			do
			{
				for (std::uint32_t entryIndex = 0, entryCount = chunk->m_entryCount;
					entryIndex < entryCount;
					++entryIndex)
''','''			auto* chunk = &list->m_headChunk;
			const std::uint32_t entryCount = chunk->m_entryCount;
			do
			{
				for (std::uint32_t entryIndex = 0;
					entryIndex < entryCount;
					++entryIndex)
''',h('stop.h')+'''
int main() { stop_source s; int n = 0; std::vector<std::unique_ptr<stop_callback>> v; for (int i = 0; i < 60; ++i) v.push_back(std::make_unique<stop_callback>(s.get_token(), [&] { ++n; })); s.request_stop(); CHECK(n == 60); }
''')

seed('pool_cancel_heap','C22','three or more delayed coroutines, cancelling one that is neither the next nor the last one in the heap','cancelling a delayed coroutine does not restore the heap order: it is resumed only when an earlier deadline passes',
 'thread_pool.h','''                            std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
                            notify = true;''','''                            // the deadline only moved forward.
                            std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                            notify = true;''',h('thread_pool.h','task.h','sync_wait.h')+'''
task<> nap(thread_pool& p, std::chrono::milliseconds d, stop_token t, std::atomic<int>& done) { co_await p.schedule_after(d, t); ++done; }
int main()
{
    thread_pool::work w; thread_pool p(1, w); stop_source a, b, c; std::atomic<int> da{0}, db{0}, dc{0};
    auto ta = nap(p, 8000ms, a.get_token(), da) | make_eager(); auto tb = nap(p, 9000ms, b.get_token(), db) | make_eager(); auto tc = nap(p, 10000ms, c.get_token(), dc) | make_eager();
    b.request_stop(); auto t0 = std::chrono::steady_clock::now(); while (!db && std::chrono::steady_clock::now() - t0 < 4s) std::this_thread::sleep_for(10ms);
    CHECK(db == 1);
    a.request_stop(); c.request_stop(); sync_wait(std::move(ta)); sync_wait(std::move(tb)); sync_wait(std::move(tc)); w.reset(); p.join();
}
''')

seed('barrier_wrap','C12','sequence numbers that wrap around while waiters with targets on both sides of the wrap are waiting','publishing compares targets by plain order instead of by signed distance: a waiter whose target lies past the wrap is resumed too early',
 'sequence_barrier.h','if (TRAITS::precedes(sequence, awaiters->m_targetSequence))','if (sequence < awaiters->m_targetSequence)',h('sequence_barrier.h','task.h','sync_wait.h')+'''
task<> w(sequence_barrier<std::uint8_t>& b, std::uint8_t t, int& got) { got = co_await b.wait_until_published(t); }
int main()
{
    sequence_barrier<std::uint8_t> b(250); int g1 = -1, g2 = -1;
    auto a = w(b, 253, g1) | make_eager(); auto c = w(b, 3, g2) | make_eager();
    b.publish(254); CHECK(g1 == 254); CHECK(g2 == -1); b.publish(2); CHECK(g2 == -1); b.publish(3); CHECK(g2 == 3); sync_wait(std::move(a)); sync_wait(std::move(c));
}
''')

seed('range_first_clamp','C28','a prefix count larger than the largest signed value of the sequence type','taking a prefix clamps with signed numbers: a huge count yields a negative prefix instead of the whole range',
 'sequence_range.h','static_cast<SEQUENCE>(m_begin + std::min(size(), count)) };','static_cast<SEQUENCE>(m_begin + std::min(TRAITS::difference(m_end, m_begin), static_cast<difference_type>(count))) };',h('sequence_range.h')+'''
int main() { sequence_range<std::size_t> r(3, 10); auto f = r.first(~std::size_t(0)); CHECK(f.size() == 7 && f.front() == 3 && f.back() == 9); CHECK(r.first(4).size() == 4); }
''')

seed('when_all_error_once','C07','reading the result of the same failed member more than once','the exception of a failed member is moved out by the first read: the second read yields a dangling value',
 'detail/when_all_task.h','''				if (m_exception)
				{
					std::rethrow_exception(m_exception);
				}
			}

			traceable* get_traceable()''','''				if (m_exception)
				{
					std::rethrow_exception(std::exchange(m_exception, nullptr));
				}
			}

			traceable* get_traceable()''',h('when_all.h','task.h','sync_wait.h')+'''
task<int> bad() { throw std::runtime_error("x"); co_return 1; } task<int> good() { co_return 2; }
int main()
{
    auto f = []() -> task<int> { auto r = co_await when_all_ready(bad(), good()); int n = 0; for (int i = 0; i < 2; ++i) { try { (void)std::get<0>(r).result(); } catch (std::runtime_error&) { ++n; } } if (std::get<1>(r).result() != 2) n = 9; co_return n; };
    CHECK(sync_wait(f()) == 2);
}
''')

seed('timeout_requested_token','C23','constructing a timeout from a token on which stop was requested already','a timeout whose token already has a stop request does not end early but waits for its whole duration',
 'timeout.h','''			if (token.stop_possible())
			{
				mReg.reset(''','''			// nothing to wait for if the stop was already requested.
			if (token.stop_possible() && token.stop_requested() == false)
			{
				mReg.reset(''',h('timeout.h','thread_pool.h','task.h','sync_wait.h')+'''
int main()
{
    thread_pool::work w; thread_pool p(1, w); stop_source s; s.request_stop(); auto t0 = std::chrono::steady_clock::now();
    timeout t(p, 5000ms, s.get_token()); CHECK(t.get_token().stop_requested()); sync_wait(t); CHECK(std::chrono::steady_clock::now() - t0 < 3s); w.reset(); p.join();
}
''')

seed('event_reset_drops','C11','resetting the event while coroutines are waiting on it','resetting an event that is not set forgets the coroutines that are waiting on it: they are never resumed',
 'manual_reset_event.h','''		void* oldState = static_cast<void*>(this);
		m_state.compare_exchange_strong(oldState, nullptr, std::memory_order_relaxed);''','''		m_state.store(nullptr, std::memory_order_relaxed);''',h('manual_reset_event.h','task.h','sync_wait.h')+'''
eager_task<> w(async_manual_reset_event& e, int& n) { co_await e; ++n; }
int main() { async_manual_reset_event e; int n = 0; auto a = w(e, n); e.set(); CHECK(n == 1); e.reset(); auto b = w(e, n); e.reset(); auto c = w(e, n); e.set(); CHECK(n == 3); }
''',flags='-O1 -g')

seed('spsc_range_publish','C13','claiming more slots than are free while the next slot number is odd','claim_up_to grants one slot more than is free when the request exceeds the room','sequence_spsc.h','''			const std::size_t countToClaim = std::min(m_count, availableCount);''','''			const std::size_t countToClaim = m_count < availableCount ? m_count : std::min(availableCount + (begin & 1), m_sequencer.m_bufferSize);''',h('sequence_spsc.h','task.h','sync_wait.h')+'''
int main()
{
    auto f = []() -> task<int> {
        sequence_barrier<std::size_t> cb; sequence_spsc<std::size_t> s(cb, 4);
        auto a = co_await s.claim_one(); s.publish(a); auto r = co_await s.claim_up_to(10); CHECK(r.size() == 3); s.publish(r);
        cb.publish(2); auto q = co_await s.claim_up_to(10); CHECK(q.size() == 3); s.publish(q);
        cb.publish(3); auto z = co_await s.claim_up_to(10); CHECK(z.size() == 1); co_return 0; };
    return sync_wait(f());
}
''')

seed('channel_wrapper_assign','C15','moving a pop handle over another one that still holds a popped item','assigning over a pop handle that still holds an item forgets that item instead of releasing its slot','channel.h','''            wrapper_base& operator=(wrapper_base&& o)
            {
                publish();
                mChl''','''            wrapper_base& operator=(wrapper_base&& o)
            {
                mChl''',h('channel.h','channel_spsc.h','task.h','sync_wait.h')+'''
int main()
{
    auto f = []() -> task<int> {
        spsc::channel<int> c(2); co_await c.push(1); { spsc::channel<int>::push_wrapper p = co_await c.push(); p = 2; }
        int sum = 0; { auto p = co_await c.pop(); sum += *p; } co_await c.push(3);
        { auto p = co_await c.push(); (void)p; } co_return sum; };
    auto g = []() -> task<int> {
        spsc::channel<int> c(4); for (int i = 1; i < 4; ++i) { int x = i; co_await c.push(std::move(x)); }
        auto p = co_await c.push(); p = 4; int sum = 0; p.publish();
        { auto a = co_await c.pop(); sum += *a; }
        spsc::channel<int>::push_wrapper w = co_await c.push(); w = 5; w = spsc::channel<int>::push_wrapper{};
        for (int i = 0; i < 4; ++i) { auto a = co_await c.pop(); sum += *a; }
        co_return sum; };
    CHECK(sync_wait(g()) == 15);
}
''',to=20)
