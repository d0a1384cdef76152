#pragma once
// Shared harness helpers. Include before macoro headers (std headers come from vsched.h).
#include "pbt.h"
#include "vsched.h"
#include <coroutine>
#define HAVE_VS 1

// ---------------------------------------------------------------- driver coroutine
// A native coroutine independent of the library: starts at once, destroys itself when it ends.
struct Drv
{
    struct promise_type
    {
        Drv get_return_object() noexcept { return {}; }
        std::suspend_never initial_suspend() noexcept { return {}; }
        std::suspend_never final_suspend() noexcept { return {}; }
        void return_void() noexcept {}
        void unhandled_exception() noexcept
        {
            try { throw; } catch (std::exception& e) { pbt::gen().fail("unexpected exception in driver: %s", e.what()); }
            catch (...) { pbt::gen().fail("unexpected exception in driver"); }
        }
    };
};
// The same, owned by a handle: starts on start(), destroyed by the owner at any point.
struct Own
{
    struct promise_type
    {
        std::exception_ptr ex;
        Own get_return_object() noexcept { return Own{ std::coroutine_handle<promise_type>::from_promise(*this) }; }
        std::suspend_always initial_suspend() noexcept { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        void return_void() noexcept {}
        void unhandled_exception() noexcept { ex = std::current_exception(); }
    };
    std::coroutine_handle<promise_type> h;
    explicit Own(std::coroutine_handle<promise_type> x) : h(x) {}
    Own() = default;
    Own(Own&& o) noexcept : h(std::exchange(o.h, nullptr)) {}
    Own& operator=(Own&& o) noexcept { if (this != &o) { if (h) h.destroy(); h = std::exchange(o.h, nullptr); } return *this; }
    ~Own() { if (h) h.destroy(); }
    void start() { h.resume(); }
    bool done() const { return h && h.done(); }
    void reset() { if (h) { h.destroy(); h = nullptr; } }
    void rethrow() { if (h.promise().ex) std::rethrow_exception(h.promise().ex); }
};

// ---------------------------------------------------------------- manual event
// Suspends the awaiting coroutine until fire(); accepts any handle type.
struct Ev
{
    std::function<void()> k; bool fired = false; int resumes = 0; int awaits = 0;
    struct Aw
    {
        Ev* e;
        bool await_ready() const noexcept { return e->fired; }
        template<class H> void await_suspend(H h) { ++e->awaits; e->k = [h]() mutable { h.resume(); }; }
        void await_resume() const noexcept {}
    };
    Aw operator co_await() { return Aw{ this }; }
    bool pending() const { return (bool)k; }
    void fire() { fired = true; if (k) { auto f = std::move(k); k = nullptr; ++resumes; f(); } }
    // resume without latching
    void pulse() { if (k) { auto f = std::move(k); k = nullptr; ++resumes; f(); } }
};

// ---------------------------------------------------------------- cross-thread gate (virtual threads)
// Oracle-side synchronisation. release()/wait() create no edge visible to ThreadSanitizer
// unless sync=true.
struct Gate
{
    bool open = false; bool sync = true;
    void release() { { vs::Quiet q; open = true; vs::wakeAll(this); } if (sync) vs::tsanRelease(this); vs::point("gate.release"); }
    bool isOpen() { vs::Quiet q; return open; }
    void wait() { vs::point("gate.wait"); while (!isOpen()) vs::block(this, "gate"); if (sync) vs::tsanAcquire(this); }
};

// ---------------------------------------------------------------- instance tracking
struct Track
{
    static inline std::atomic<long> live{ 0 };
    static inline std::atomic<long> made{ 0 };
};
struct Boom : std::exception
{
    int id; std::string txt;
    Boom(int i) : id(i), txt("boom" + std::to_string(i)) { ++Track::live; }
    Boom(const Boom& o) : std::exception(o), id(o.id), txt(o.txt) { ++Track::live; }
    ~Boom() { --Track::live; id = -777; }
    const char* what() const noexcept override { return txt.c_str(); }
};
// Memory a piece of work leaves behind, unsynchronised on purpose: whoever is told that the work is done may read it.
struct Mark
{
    long v = 0;
    void set(long x = 1) { v = x; }
    void see(const char* what, long x = 1) { if (v != x) pbt::gen().fail("%s: what the finished work wrote is not visible", what); }
};
// exceptions of several kinds: a capture that loses the dynamic type shows
struct BigBoom : Boom { int extra; BigBoom(int i) : Boom(i), extra(i + 1) {} };
struct RtBoom : std::runtime_error { int id; RtBoom(int i) : std::runtime_error("rt" + std::to_string(i)), id(i) { ++Track::live; } RtBoom(const RtBoom& o) : std::runtime_error(o), id(o.id) { ++Track::live; } ~RtBoom() { --Track::live; id = -777; } };
struct Odd { int v; };
namespace exk
{
static const int n = 7;
[[noreturn]] static inline void raise(int k, int v)
{
    switch (k) { case 0: throw Boom(v); case 1: throw BigBoom(v); case 2: throw v; case 3: throw std::string("s" + std::to_string(v)); case 4: throw std::out_of_range("r" + std::to_string(v)); case 5: throw RtBoom(v); default: throw Odd{ v }; }
}
struct Seen { int kind = -1, v = 0; bool operator==(const Seen& o) const { return kind == o.kind && v == o.v; } };
// classifies the exception being handled
static inline Seen current()
{
    try { throw; }
    catch (BigBoom& b) { return { b.extra == b.id + 1 && b.txt == "boom" + std::to_string(b.id) ? 1 : 99, b.id }; } catch (Boom& b) { return { typeid(b) == typeid(Boom) && b.txt == "boom" + std::to_string(b.id) ? 0 : 99, b.id }; } catch (int i) { return { 2, i }; } catch (std::string& s) { return { 3, atoi(s.c_str() + 1) }; }
    catch (std::out_of_range& e) { return { typeid(e) == typeid(std::out_of_range) ? 4 : 99, atoi(e.what() + 1) }; } catch (RtBoom& e) { return { e.what() == "rt" + std::to_string(e.id) ? 5 : 99, e.id }; } catch (Odd& o) { return { 6, o.v }; } catch (...) { return { 98, 0 }; }
}
template<class F> static Seen seen(F&& f) // what calling f throws
{
    try { f(); return { -1, 0 }; } catch (...) { return current(); }
}
static inline Seen seenP(const std::exception_ptr& p) { if (!p) return { 97, 0 }; return seen([&] { std::rethrow_exception(p); }); }
}
// Heap-owning, instance-counted value; moved-from objects are recognisable.
template<bool Copyable> struct ValT
{
    int* p;
    ValT() : p(new int(-1)) { ++Track::live; }
    ValT(int v) : p(new int(v)) { ++Track::live; }
    ValT(ValT&& o) noexcept : p(std::exchange(o.p, nullptr)) { ++Track::live; }
    ValT(const ValT& o) requires Copyable : p(o.p ? new int(*o.p) : nullptr) { ++Track::live; }
    ValT& operator=(ValT&& o) noexcept { if (this != &o) { delete p; p = std::exchange(o.p, nullptr); } return *this; }
    ValT& operator=(const ValT& o) requires Copyable { if (this != &o) { delete p; p = o.p ? new int(*o.p) : nullptr; } return *this; }
    ~ValT() { delete p; --Track::live; }
    int get() const { return p ? *p : -999; }
    bool operator==(const ValT& o) const { return get() == o.get(); }
};
using Val = ValT<true>;
using MVal = ValT<false>;
struct LiveCheck
{
    long a = Track::live.load();
    void done(const char* what = "instances") { long b = Track::live.load(); if (a != b) pbt::gen().fail("%s: %ld instance(s) %s", what, b > a ? b - a : a - b, b > a ? "leaked" : "destroyed twice"); }
};

// a payload whose copies can fail
struct Frail
{
    static inline int fuse = 0; // the fuse-th copy from now on fails, 0: none
    int* p;
    static void copyPoint() { if (fuse && --fuse == 0) throw Boom(77); }
    Frail(int v = -1) : p(new int(v)) { ++Track::live; }
    Frail(const Frail& o) : p((copyPoint(), o.p ? new int(*o.p) : nullptr)) { ++Track::live; }
    Frail(Frail&& o) noexcept : p(std::exchange(o.p, nullptr)) { ++Track::live; }
    Frail& operator=(const Frail& o) { copyPoint(); int* q = o.p ? new int(*o.p) : nullptr; delete p; p = q; return *this; }
    Frail& operator=(Frail&& o) noexcept { if (this != &o) { delete p; p = std::exchange(o.p, nullptr); } return *this; }
    ~Frail() { delete p; --Track::live; }
    int get() const { return p ? *p : -999; }
    bool operator==(const Frail& o) const { return get() == o.get(); }
};

// the errors a scope's join reports
template<class E> std::vector<std::exception_ptr> joinErrors(E& e)
{
    if constexpr (requires { std::vector<std::exception_ptr>(e.m_exceptions); }) return e.m_exceptions;
    else { std::vector<std::exception_ptr> r; for (auto& x : e.exceptions()) r.push_back(x); return r; }
}

// ---------------------------------------------------------------- cross-thread event
// event fired by another virtual thread; never ready
struct XEv
{
    std::function<void()> k; bool parked = false;
    struct Aw
    {
        XEv* e;
        bool await_ready() const noexcept { return false; }
        template<class H> void await_suspend(H h) { XEv* x = e; { vs::Quiet q; x->k = [h]() mutable { h.resume(); }; x->parked = true; } vs::tsanRelease(x); vs::wakeAll(x); vs::point("parked"); }
        void await_resume() const noexcept { vs::tsanAcquire((void*)e); }
    };
    Aw operator co_await() { return Aw{ this }; }
    // waits until somebody is parked, then resumes it
    void fire()
    {
        vs::point("fire");
        while (true) { { vs::Quiet q; if (parked) break; } vs::block(this, "event"); }
        vs::tsanAcquire(this);
        std::function<void()> f;
        { vs::Quiet q; f = std::move(k); k = nullptr; parked = false; }
        vs::tsanRelease(this);
        f();
    }
};

template<class T> struct Mk;      // make a value of type T from an int, read it back
template<> struct Mk<int> { static int mk(int v, int*) { return v; } static int rd(int v) { return v; } };
template<> struct Mk<Val> { static Val mk(int v, int*) { return Val(v); } static int rd(const Val& v) { return v.get(); } };
template<> struct Mk<MVal> { static MVal mk(int v, int*) { return MVal(v); } static int rd(const MVal& v) { return v.get(); } };
template<> struct Mk<int&> { static int& mk(int, int* p) { return *p; } static int rd(int& v) { return v; } };
template<> struct Mk<void> {};

