#pragma once
// Virtual scheduler: runs the code under test on real threads of which exactly one is
// running at any time. Every atomic operation, mutex and condition variable operation,
// thread start/exit and clock wait is a scheduling point; the next thread is chosen by
// the case's generator, so a schedule is part of the generated (and shrunk) input.
// Time is virtual. Use:
//   #include "vsched.h"      (includes the std headers)
//   #include "vsched_on.h"   (redefines atomic, mutex, ... )
//   #include "macoro/..."    (code under test, headers and .cpp files)
#include "pbt.h"
#include <bits/stdc++.h>
#if defined(__SANITIZE_THREAD__)
extern "C" { void __tsan_acquire(void*); void __tsan_release(void*); }
#endif

namespace vs
{
    inline unsigned cpus = 4;                             // what hardware_concurrency() reports; set per case
    struct Opts
    {
        bool spurious = true;    // spurious condition variable wakeups and weak CAS failures
        bool timeJumps = true;   // time may pass while threads are runnable
        int  maxPreempt = 1 << 30;
        bool tick = false;       // small amounts of time may pass at any point
    };
    // Run body as virtual thread 0. All threads it starts must have finished when it returns.
    void run(pbt::Gen& g, void (*fn)(void*), void* arg, Opts o = {});
    template<class F> void run(pbt::Gen& g, F&& f, Opts o = {})
    {
        run(g, [](void* p) { (*(std::remove_reference_t<F>*)p)(); }, (void*)&f, o);
    }
    bool active();                  // scheduler is running and the caller is a virtual thread
    void point(const char* what);   // scheduling point
    void block(const void* on, const char* what);                   // block until wake(on)
    // returns true if woken, false if the deadline passed. ns: absolute virtual time.
    bool blockUntil(const void* on, int64_t ns, const char* what);
    void wakeOne(const void* on);
    void wakeAll(const void* on);
    bool spuriousFail();
    bool spuriousWake();
    int64_t nowNs();
    void sleepUntil(int64_t ns);
    int  threadCount();             // indices allocated so far
    int  self();                    // virtual thread index, -1 outside
    uint64_t switches();
    uint64_t steps();
    // forbids preemption in a scope (for oracle code)
    struct NoPreempt { NoPreempt(); ~NoPreempt(); };
    // NoPreempt + memory accesses invisible to ThreadSanitizer; wraps all oracle code
    struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet&) = delete; };
    // thread start and exit notifications
    int  prepareThread();           // by the parent: allocate an index
    void enterThread(int idx);      // by the child: wait to be scheduled
    void exitThread();              // by the child: last action
    bool finished(int idx);
    void waitThread(int idx);       // by the parent: block until the thread exited
    // mutex on a plain word; the word is only touched by the (uninstrumented) scheduler core
    void mutexLock(int*); bool mutexTryLock(int*); void mutexUnlock(int*); void mutexDestroy(int*);
    void tsanAcquire(void*);
    void tsanRelease(void*);
    // C++20 memory model: which earlier value of an atomic a load may still return (see vsched.cpp)
    void wForget(const void* a);
    bool wLoad(const void* a, std::memory_order o, uint64_t cur, uint64_t* val);    // true: returns an older value
    void wSeen(const void* a, std::memory_order o, uint64_t cur);                   // a failed compare-exchange
    void wStore(const void* a, std::memory_order o, uint64_t old, uint64_t val);
    void wRmw(const void* a, std::memory_order o, uint64_t old, uint64_t val);
    void wFence(std::memory_order o);
    uint64_t staleReads();
}

namespace std
{
    // ------------------------------------------------------------------ mutex
    struct vs_mutex
    {
        int owner = 0; volatile char canary = 0;
        void touch() const { (void)canary; } // instrumented access: use of a destroyed mutex is seen
        vs_mutex() = default;
        vs_mutex(const vs_mutex&) = delete;
        ~vs_mutex() { vs::mutexDestroy(&owner); }
        void lock() { touch(); vs::mutexLock(&owner); }
        bool try_lock() { touch(); return vs::mutexTryLock(&owner); }
        void unlock() { touch(); vs::mutexUnlock(&owner); }
    };
    // The following are not used by the pinned tree; they let a rewritten one run under the scheduler too.
    struct vs_timed_mutex : vs_mutex
    {
        template<class R, class P> bool try_lock_for(const std::chrono::duration<R, P>&) { return try_lock(); }
        template<class C, class D> bool try_lock_until(const std::chrono::time_point<C, D>&) { return try_lock(); }
    };
    struct vs_recursive_mutex
    {
        vs_mutex m; int who = -2, depth = 0;
        void lock() { if (who == vs::self() && depth) { ++depth; return; } m.lock(); who = vs::self(); depth = 1; }
        bool try_lock() { if (who == vs::self() && depth) { ++depth; return true; } if (!m.try_lock()) return false; who = vs::self(); depth = 1; return true; }
        void unlock() { if (--depth) return; who = -2; m.unlock(); }
    };
    struct vs_shared_mutex
    {
        vs_mutex m; int readers = 0; bool writer = false; char dummy = 0;
        bool try_lock() { m.lock(); bool ok = !writer && !readers; if (ok) writer = true; m.unlock(); return ok; }
        bool try_lock_shared() { m.lock(); bool ok = !writer; if (ok) ++readers; m.unlock(); return ok; }
        void lock() { m.lock(); while (writer || readers) pause(); writer = true; m.unlock(); }
        void lock_shared() { m.lock(); while (writer) pause(); ++readers; m.unlock(); }
        void unlock() { m.lock(); writer = false; vs::wakeAll(&dummy); m.unlock(); }
        void unlock_shared() { m.lock(); if (!--readers) vs::wakeAll(&dummy); m.unlock(); }
    private:
        void pause() { { vs::NoPreempt np; m.unlock(); } vs::block(&dummy, "shared_mutex"); m.lock(); }
    };
    template<ptrdiff_t Max = PTRDIFF_MAX> struct vs_counting_semaphore
    {
        vs_mutex m; ptrdiff_t n; char dummy = 0;
        explicit vs_counting_semaphore(ptrdiff_t x) : n(x) {}
        static constexpr ptrdiff_t max() noexcept { return Max; }
        void release(ptrdiff_t k = 1) { m.lock(); n += k; vs::wakeAll(&dummy); m.unlock(); }
        void acquire() { m.lock(); while (!n) { { vs::NoPreempt np; m.unlock(); } vs::block(&dummy, "semaphore"); m.lock(); } --n; m.unlock(); }
        bool try_acquire() noexcept { m.lock(); bool ok = n > 0; if (ok) --n; m.unlock(); return ok; }
    };
    using vs_binary_semaphore = vs_counting_semaphore<1>;
    struct vs_once_flag { vs_recursive_mutex m; bool done = false; vs_once_flag() noexcept {} };
    template<class F, class... A> void vs_call_once(vs_once_flag& o, F&& f, A&&... a)
    {
        o.m.lock(); struct U { vs_once_flag& o; ~U() { o.m.unlock(); } } u{ o };
        if (!o.done) { std::invoke(std::forward<F>(f), std::forward<A>(a)...); o.done = true; }
    }
    struct vs_latch
    {
        vs_mutex m; ptrdiff_t n; char dummy = 0;
        explicit vs_latch(ptrdiff_t x) : n(x) {}
        void count_down(ptrdiff_t k = 1) { m.lock(); n -= k; if (!n) vs::wakeAll(&dummy); m.unlock(); }
        bool try_wait() noexcept { m.lock(); bool ok = !n; m.unlock(); return ok; }
        void wait() { m.lock(); while (n) { { vs::NoPreempt np; m.unlock(); } vs::block(&dummy, "latch"); m.lock(); } m.unlock(); }
        void arrive_and_wait(ptrdiff_t k = 1) { count_down(k); wait(); }
    };

    // ------------------------------------------------------------------ clock
    struct vs_clock
    {
        using duration = std::chrono::nanoseconds;
        using rep = duration::rep; using period = duration::period;
        using time_point = std::chrono::time_point<vs_clock>;
        static constexpr bool is_steady = true;
        static time_point now() noexcept { return time_point(duration(vs::nowNs())); }
    };

    // ------------------------------------------------------------------ condition variable
    struct vs_condition_variable
    {
        char dummy = 0; volatile char canary = 0;
        void touch() const { (void)canary; }
        vs_condition_variable() = default;
        vs_condition_variable(const vs_condition_variable&) = delete;
        void notify_one() noexcept { vs::point("cv.notify_one"); touch(); vs::wakeOne(&dummy); vs::point("cv.notified"); }
        void notify_all() noexcept { vs::point("cv.notify_all"); touch(); vs::wakeAll(&dummy); vs::point("cv.notified"); }
        template<class L> void wait(L& l)
        {
            touch(); vs::point("cv.wait");
            if (vs::spuriousWake()) { l.unlock(); vs::point("cv.spurious"); l.lock(); return; }
            unlockNoPoint(l);
            vs::block(&dummy, "cv.wait");
            l.lock();
        }
        template<class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
        template<class L> bool waitNs(L& l, int64_t ns)
        {
            touch(); vs::point("cv.wait_until");
            if (vs::spuriousWake()) { l.unlock(); vs::point("cv.spurious"); l.lock(); return true; }
            unlockNoPoint(l);
            bool r = vs::blockUntil(&dummy, ns, "cv.wait_until");
            l.lock();
            return r;
        }
        template<class L, class C, class D> std::cv_status wait_until(L& l, const std::chrono::time_point<C, D>& tp)
        {
            auto rel = std::chrono::duration_cast<std::chrono::nanoseconds>(tp - C::now()).count();
            int64_t ns = vs::nowNs() + rel;
            if (std::is_same_v<C, vs_clock>) ns = std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count();
            bool r = waitNs(l, ns);
            // as libstdc++ does: the caller's time point is read again after waking, with the lock held
            volatile auto again = tp.time_since_epoch().count(); (void)again;
            return r ? std::cv_status::no_timeout : std::cv_status::timeout;
        }
        template<class L, class C, class D, class P> bool wait_until(L& l, const std::chrono::time_point<C, D>& tp, P p)
        {
            while (!p()) if (wait_until(l, tp) == std::cv_status::timeout) return p();
            return true;
        }
        template<class L, class R, class Pd> std::cv_status wait_for(L& l, const std::chrono::duration<R, Pd>& d)
        {
            return wait_until(l, vs_clock::now() + std::chrono::duration_cast<std::chrono::nanoseconds>(d));
        }
        template<class L, class R, class Pd, class P> bool wait_for(L& l, const std::chrono::duration<R, Pd>& d, P p)
        {
            return wait_until(l, vs_clock::now() + std::chrono::duration_cast<std::chrono::nanoseconds>(d), std::move(p));
        }
    private:
        // releases the lock and starts waiting atomically
        template<class L> static void unlockNoPoint(L& l) { vs::NoPreempt np; l.unlock(); }
    };
    using vs_condition_variable_any = vs_condition_variable;

    // ------------------------------------------------------------------ thread
    struct vs_thread
    {
        using id = std::thread::id;
        std::thread mT; int mIdx = -1;
        vs_thread() noexcept = default;
        template<class F, class... A, class = std::enable_if_t<!std::is_same_v<std::remove_cvref_t<F>, vs_thread>>>
        explicit vs_thread(F&& f, A&&... a)
        {
            vs::point("thread.start");
            mIdx = vs::prepareThread();
            mT = std::thread([idx = mIdx](auto&& ff, auto&&... aa) {
                vs::enterThread(idx);
                {
                    std::invoke(std::forward<decltype(ff)>(ff), std::forward<decltype(aa)>(aa)...);
                }
                vs::exitThread();
            }, std::forward<F>(f), std::forward<A>(a)...);
            vs::point("thread.started");
        }
        vs_thread(vs_thread&& o) noexcept : mT(std::move(o.mT)), mIdx(std::exchange(o.mIdx, -1)) {}
        vs_thread& operator=(vs_thread&& o) noexcept { if (mT.joinable()) std::terminate(); mT = std::move(o.mT); mIdx = std::exchange(o.mIdx, -1); return *this; }
        ~vs_thread() { }
        bool joinable() const noexcept { return mT.joinable(); }
        void join() { vs::point("thread.join"); vs::waitThread(mIdx); mT.join(); vs::point("thread.joined"); }
        void detach() { mT.detach(); }
        auto native_handle() { return mT.native_handle(); }
        id get_id() const noexcept { return mT.get_id(); }
        static unsigned hardware_concurrency() noexcept { return vs::cpus; }
        void swap(vs_thread& o) noexcept { mT.swap(o.mT); std::swap(mIdx, o.mIdx); }
    };
    struct vs_jthread : vs_thread { using vs_thread::vs_thread; vs_jthread(vs_jthread&&) = default; vs_jthread& operator=(vs_jthread&&) = default; ~vs_jthread() { if (joinable()) join(); } };

    namespace vs_this_thread
    {
        inline void yield() { vs::point("yield"); }
        inline std::thread::id get_id() { return std::this_thread::get_id(); }
        template<class R, class P> void sleep_for(const std::chrono::duration<R, P>& d) { vs::sleepUntil(vs::nowNs() + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); }
        template<class C, class D> void sleep_until(const std::chrono::time_point<C, D>& tp) { sleep_for(tp - C::now()); }
    }

    // ------------------------------------------------------------------ atomic
#if defined(__SANITIZE_THREAD__)
    // ThreadSanitizer does not model fences: an acquire fence acquires what the thread read before it, and
    // after a release fence the thread's relaxed writes release.
    struct vs_tsan_fences
    {
        static constexpr unsigned N = 64;
        const void* read[N]; unsigned n = 0; bool released = false;
        static vs_tsan_fences& mine() noexcept { static thread_local vs_tsan_fences f; return f; }
        void fence(std::memory_order o) noexcept
        {
            if (o == std::memory_order_relaxed) return;
            if (o != std::memory_order_release) for (unsigned i = 0; i < (n < N ? n : N); ++i) __tsan_acquire(const_cast<void*>(read[i]));
            if (o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst) released = true;
        }
        static bool acquires(std::memory_order o) noexcept { return o != std::memory_order_relaxed && o != std::memory_order_release; }
        static bool releases(std::memory_order o) noexcept { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
        static void reading(const void* a, std::memory_order o) noexcept { if (!acquires(o)) { auto& f = mine(); f.read[f.n++ % N] = a; } }
        static void writing(const void* a, std::memory_order o) noexcept { if (!releases(o) && mine().released) __tsan_release(const_cast<void*>(a)); }
    };
#else
    struct vs_tsan_fences
    {
        static vs_tsan_fences mine() noexcept { return {}; }
        void fence(std::memory_order) noexcept {}
        static void reading(const void*, std::memory_order) noexcept {}
        static void writing(const void*, std::memory_order) noexcept {}
    };
#endif
    template<class T> struct vs_atomic
    {
        std::atomic<T> v;
        using value_type = T;
        static constexpr bool is_always_lock_free = std::atomic<T>::is_always_lock_free;
        vs_atomic() noexcept : v() { vs::wForget(this); }
        constexpr vs_atomic(T x) noexcept : v(x) { if (!std::is_constant_evaluated()) vs::wForget(this); }
        vs_atomic(const vs_atomic&) = delete;
        vs_atomic& operator=(const vs_atomic&) = delete;
        constexpr ~vs_atomic() { if (!std::is_constant_evaluated()) vs::wForget(this); }
        bool is_lock_free() const noexcept { return v.is_lock_free(); }
        static constexpr bool small = sizeof(T) <= 8;
        static uint64_t raw(T x) noexcept { uint64_t r = 0; if constexpr (small) memcpy(&r, &x, sizeof(T)); return r; }
        T peek() const noexcept { return v.load(std::memory_order_relaxed); }
        T load(std::memory_order o = std::memory_order_seq_cst) const noexcept
        {
            vs::point("atomic.load");
            if constexpr (small) { uint64_t x; if (vs::wLoad(this, o, raw(peek()), &x)) { vs_tsan_fences::reading(&v, o); T r; memcpy(&r, &x, sizeof(T)); vs::point("atomic.loaded"); return r; } }
            T r = v.load(o); vs_tsan_fences::reading(&v, o); vs::point("atomic.loaded"); return r;
        }
        void store(T x, std::memory_order o = std::memory_order_seq_cst) noexcept { vs::point("atomic.store"); if constexpr (small) vs::wStore(this, o, raw(peek()), raw(x)); vs_tsan_fences::writing(&v, o); v.store(x, o); vs::point("atomic.stored"); }
        T exchange(T x, std::memory_order o = std::memory_order_seq_cst) noexcept { vs::point("atomic.exchange"); vs_tsan_fences::writing(&v, o); T r = v.exchange(x, o); vs_tsan_fences::reading(&v, o); if constexpr (small) vs::wRmw(this, o, raw(r), raw(x)); vs::point("atomic.exchanged"); return r; }
        bool cas(T& e, T d, std::memory_order s, std::memory_order f) noexcept
        {
            T old = peek(); vs_tsan_fences::writing(&v, s); bool r = v.compare_exchange_strong(e, d, s, f);
            vs_tsan_fences::reading(&v, r ? s : f);
            if constexpr (small) { if (r) vs::wRmw(this, s, raw(old), raw(d)); else vs::wSeen(this, f, raw(old)); }
            vs::point("atomic.cas.done"); return r;
        }
        static constexpr std::memory_order failOrder(std::memory_order s) noexcept { return s == std::memory_order_acq_rel ? std::memory_order_acquire : s == std::memory_order_release ? std::memory_order_relaxed : s; }
        bool compare_exchange_strong(T& e, T d, std::memory_order s, std::memory_order f) noexcept { vs::point("atomic.cas"); return cas(e, d, s, f); }
        bool compare_exchange_strong(T& e, T d, std::memory_order s = std::memory_order_seq_cst) noexcept { vs::point("atomic.cas"); return cas(e, d, s, failOrder(s)); }
        bool compare_exchange_weak(T& e, T d, std::memory_order s, std::memory_order f) noexcept { vs::point("atomic.cas"); if (vs::spuriousFail()) { e = v.load(f); vs_tsan_fences::reading(&v, f); if constexpr (small) vs::wSeen(this, f, raw(e)); return false; } return cas(e, d, s, f); }
        bool compare_exchange_weak(T& e, T d, std::memory_order s = std::memory_order_seq_cst) noexcept { return compare_exchange_weak(e, d, s, failOrder(s)); }
        operator T() const noexcept { return load(); }
        T operator=(T x) noexcept { store(x); return x; }
        void wait(T old, std::memory_order o = std::memory_order_seq_cst) const noexcept { while (load(o) == old) { if (v.load(o) == old) vs::block(this, "atomic.wait"); } }
        void notify_one() noexcept { vs::point("atomic.notify"); vs::wakeAll(this); }
        void notify_all() noexcept { vs::point("atomic.notify"); vs::wakeAll(this); }
#define VS_RMW(op) \
        template<class U> auto op(U x, std::memory_order o = std::memory_order_seq_cst) noexcept requires requires(std::atomic<T>& a, U u) { a.op(u); } { vs::point("atomic." #op); vs_tsan_fences::writing(&v, o); T r = v.op(x, o); vs_tsan_fences::reading(&v, o); if constexpr (small) { std::atomic<T> n(r); n.op(x); vs::wRmw(this, o, raw(r), raw(n.load(std::memory_order_relaxed))); } vs::point("atomic." #op ".done"); return r; }
        VS_RMW(fetch_add) VS_RMW(fetch_sub) VS_RMW(fetch_and) VS_RMW(fetch_or) VS_RMW(fetch_xor)
#undef VS_RMW
        T operator++() noexcept { return fetch_add(1) + 1; }
        T operator++(int) noexcept { return fetch_add(1); }
        T operator--() noexcept { return fetch_sub(1) - 1; }
        T operator--(int) noexcept { return fetch_sub(1); }
        template<class U> T operator+=(U x) noexcept { return fetch_add(x) + x; }
        template<class U> T operator-=(U x) noexcept { return fetch_sub(x) - x; }
        template<class U> T operator|=(U x) noexcept { return fetch_or(x) | x; }
        template<class U> T operator&=(U x) noexcept { return fetch_and(x) & x; }
        template<class U> T operator^=(U x) noexcept { return fetch_xor(x) ^ x; }
    };
    struct vs_atomic_flag
    {
        vs_atomic<bool> v{ false };
        bool test_and_set(std::memory_order o = std::memory_order_seq_cst) noexcept { return v.exchange(true, o); }
        void clear(std::memory_order o = std::memory_order_seq_cst) noexcept { v.store(false, o); }
        bool test(std::memory_order o = std::memory_order_seq_cst) const noexcept { return v.load(o); }
        vs_atomic_flag() = default; vs_atomic_flag(bool b) noexcept : v(b) {}
        void wait(bool old, std::memory_order o = std::memory_order_seq_cst) const noexcept { v.wait(old, o); }
        void notify_one() noexcept { v.notify_one(); }
        void notify_all() noexcept { v.notify_all(); }
    };
    template<class T> T atomic_load(const vs_atomic<T>* a) { return a->load(); }
    template<class T> T atomic_load_explicit(const vs_atomic<T>* a, std::memory_order o) { return a->load(o); }
    template<class T> void atomic_store(vs_atomic<T>* a, std::type_identity_t<T> x) { a->store(x); }
    template<class T> void atomic_store_explicit(vs_atomic<T>* a, std::type_identity_t<T> x, std::memory_order o) { a->store(x, o); }
    template<class T> T atomic_exchange(vs_atomic<T>* a, std::type_identity_t<T> x) { return a->exchange(x); }
    template<class T> T atomic_exchange_explicit(vs_atomic<T>* a, std::type_identity_t<T> x, std::memory_order o) { return a->exchange(x, o); }
    template<class T, class U> T atomic_fetch_add(vs_atomic<T>* a, U x) { return a->fetch_add(x); }
    template<class T, class U> T atomic_fetch_add_explicit(vs_atomic<T>* a, U x, std::memory_order o) { return a->fetch_add(x, o); }
    template<class T, class U> T atomic_fetch_sub(vs_atomic<T>* a, U x) { return a->fetch_sub(x); }
    template<class T, class U> T atomic_fetch_sub_explicit(vs_atomic<T>* a, U x, std::memory_order o) { return a->fetch_sub(x, o); }
    template<class T, class U> T atomic_fetch_or(vs_atomic<T>* a, U x) { return a->fetch_or(x); }
    template<class T, class U> T atomic_fetch_and(vs_atomic<T>* a, U x) { return a->fetch_and(x); }
    template<class T> bool atomic_compare_exchange_strong(vs_atomic<T>* a, T* e, std::type_identity_t<T> d) { return a->compare_exchange_strong(*e, d); }
    template<class T> bool atomic_compare_exchange_weak(vs_atomic<T>* a, T* e, std::type_identity_t<T> d) { return a->compare_exchange_weak(*e, d); }
    inline void vs_atomic_thread_fence(std::memory_order o) noexcept { vs::point("atomic.fence"); std::atomic_thread_fence(o); vs_tsan_fences::mine().fence(o); vs::wFence(o); vs::point("atomic.fenced"); }
    using vs_atomic_bool = vs_atomic<bool>;
    using vs_atomic_int = vs_atomic<int>;
    using vs_atomic_size_t = vs_atomic<size_t>;
    namespace chrono { using vs_steady_clock = ::std::vs_clock; using vs_system_clock = ::std::vs_clock; using vs_high_resolution_clock = ::std::vs_clock; }
}
