#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include <deque>
#include "macoro/task.h"
#include "macoro/wrap.h"
#include "macoro/when_all.h"
#include "macoro/when_all_scope.h"
#include "macoro/async_scope.h"
#include "macoro/manual_reset_event.h"
#include "macoro/barrier.h"
#include "macoro/channel_spsc.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;
// C05: forms of handles, mixed chains, constant stack.

// ---------------------------------------------------------------- handle forms
struct St { int steps = 0, destroyed = 0; bool ret = false, unhandled = false; int n = 0; int fail = -1; bool rethrow = false; };
template<int SZ, int AL> struct Pad { alignas(AL) char c[SZ]; };
template<int K> struct PadOf { using type = Pad<1, 1>; };
template<> struct PadOf<1> { using type = Pad<8, 8>; };
template<> struct PadOf<2> { using type = Pad<40, 16>; };
template<> struct PadOf<3> { using type = Pad<3, 2>; };
template<int K> struct Cr
{
    struct promise_type
    {
        typename PadOf<K>::type pad; St* st; static inline St* next;
        promise_type() : st(next) { memset(&pad, 0x5a, sizeof pad); ++Track::live; }
        ~promise_type() { ++st->destroyed; --Track::live; }
        Cr get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::std) }; }
        Cr macoro_get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro) }; }
        suspend_always initial_suspend() { return {}; } suspend_always final_suspend() noexcept { return {}; }
        void return_void() { st->ret = true; } void unhandled_exception() { st->unhandled = true; if (st->rethrow) throw; }
    };
    coroutine_handle<promise_type> h;
};
struct Park { bool await_ready() { return false; } template<class H> void await_suspend(H) {} void await_resume() {} };
struct Bal { long c[4]; Bal(int n) { for (auto& x : c) x = n; ++Track::live; } Bal(Bal&& o) { memcpy(c, o.c, sizeof c); ++Track::live; } ~Bal() { --Track::live; } };
template<int K> Cr<K> natCr(St* st, Bal b) { for (int i = 0; i < st->n; ++i) { ++st->steps; REQUIRE(b.c[i % 4] == st->n, "argument damaged"); if (st->fail == i) throw Boom(i); co_await Park{}; } ++st->steps; }
template<int K> Cr<K> macCr(St* st, Bal b)
{
    MC_BEGIN(Cr<K>, st, b = std::move(b), i = 0);
    for (; i < st->n; ++i) { ++st->steps; REQUIRE(b.c[i % 4] == st->n, "capture damaged"); if (st->fail == i) throw Boom(i); MC_AWAIT(Park{}); }
    ++st->steps;
    MC_END();
}
static thread_local St* capSt;
template<int K> Cr<K> macCr0() // nothing captured
{
    MC_BEGIN(Cr<K>);
    while (capSt->steps < capSt->n) { ++capSt->steps; if (capSt->fail == capSt->steps - 1) throw Boom(1); MC_AWAIT(Park{}); }
    ++capSt->steps;
    MC_END();
}
// a coroutine under test with every form of its handle
struct Subject
{
    St st; int mac = 0; coroutine_handle<> e; std::coroutine_handle<> s; void* addr = nullptr; bool gone = false; bool finished = false;
    std::function<void(int)> typed; // 0 resume 1 destroy 2 check
    std::function<bool()> typedDone; std::function<coroutine_handle<>()> typedErase; std::function<std::coroutine_handle<>()> typedStd;
};
template<int K> static void makeSubject(Subject& s)
{
    using P = typename Cr<K>::promise_type; P::next = &s.st; capSt = &s.st;
    auto c = s.mac == 0 ? natCr<K>(&s.st, Bal(s.st.n)) : s.mac == 1 ? macCr<K>(&s.st, Bal(s.st.n)) : macCr0<K>();
    auto h = c.h; s.e = h; s.addr = h.address();
    s.typed = [h, &s](int a)
    {
        if (a == 0) h.resume();
        else if (a == 3) h();
        else if (a == 1) h.destroy();
        else
        {
            P& p = h.promise(); REQUIRE(p.st == &s.st, "promise() is another coroutine's"); REQUIRE(((uintptr_t)&p & (alignof(P) - 1)) == 0, "promise misaligned");
            for (size_t i = 0; i < sizeof p.pad; ++i) REQUIRE(((char*)&p.pad)[i] == 0x5a, "promise damaged");
            REQUIRE(coroutine_handle<P>::from_address(h.address()) == h, "from_address(address()) is another handle"); REQUIRE((bool)h, "handle is null");
            auto back = coroutine_handle<P>::from_promise(p, s.mac ? coroutine_handle_type::macoro : coroutine_handle_type::std);
            REQUIRE(back == h, "from_promise() gives another handle");
        }
    };
    s.typedDone = [h] { return h.done(); }; s.typedErase = [h] { return coroutine_handle<>(h); }; s.typedStd = [h, k = pbt::gen().b()] { return k ? h.std_cast() : (std::coroutine_handle<>)h; };
    if (s.mac) { auto e2 = coroutine_handle<>(h); REQUIRE(!e2.is_std(), "a macro coroutine's handle says it is native"); } else { REQUIRE(s.e.is_std(), "a native coroutine's handle says it is not"); auto n = std::coroutine_handle<P>::from_address(h.address()); REQUIRE(coroutine_handle<P>(n) == h, "native handle does not convert back to the same"); }
    s.s = s.typedStd();
}
PBT_SECTION(handle_forms, 60000, 3000000)
{
    std::deque<Subject> subs; int count = 1 + (int)g.u(3);
    long before = Track::live;
    for (int k = 0; k < count; ++k)
    {
        subs.emplace_back(); Subject& s = subs.back();
        s.mac = (int)g.u(3); s.st.n = (int)g.u(5); s.st.fail = g.chance(1, 4) ? (int)g.u(5) : -1; s.st.rethrow = g.b(); int K = (int)g.u(4);
        g.note("coroutine %d: %s, promise kind %d, %d suspensions, fails at %d%s", k, s.mac == 0 ? "native" : s.mac == 1 ? "macro" : "macro without captures", K, s.st.n, s.st.fail, s.st.rethrow ? " rethrowing" : "");
        switch (K) { case 0: makeSubject<0>(s); break; case 1: makeSubject<1>(s); break; case 2: makeSubject<2>(s); break; default: makeSubject<3>(s); }
    }
    int ops = 4 + g.size(30), resumes = 0, forms = 0;
    std::vector<std::pair<coroutine_handle<>, int>> pool; // erased handles obtained by conversions, and of which coroutine
    for (int i = 0; i < ops; ++i)
    {
        int k = (int)g.u(count); Subject& s = subs[k]; if (s.gone) continue;
        switch (g.u(8))
        {
        case 0: case 1: case 2: // resume through some form
        {
            if (s.finished) break;
            int f = (int)g.u(6); int was = s.st.steps; bool willThrow = s.st.fail == was && was < s.st.n; bool escapes = willThrow && s.st.rethrow, threw = false;
            if (s.mac == 2) capSt = &s.st;
            g.note("resume %d in form %d", k, f); forms |= 1 << f;
            try { if (f == 0) s.typed(0); else if (f == 1) s.e.resume(); else if (f == 2) s.s.resume(); else if (f == 3) s.typed(3); else if (f == 4) s.e(); else coroutine_handle<>(s.s).resume(); }
            catch (Boom&) { threw = true; }
            ++resumes;
            REQUIRE(threw == escapes, "resuming coroutine %d in form %d %s", k, f, threw ? "threw" : "did not throw");
            REQUIRE(s.st.steps == was + 1, "resuming coroutine %d in form %d ran %d steps", k, f, s.st.steps - was);
            if (willThrow || s.st.steps == s.st.n + 1) s.finished = true;
            REQUIRE(s.st.unhandled == willThrow && s.st.ret == (s.finished && !willThrow), "completion of coroutine %d reported wrongly to its promise", k);
            break;
        }
        case 3: // a conversion path
        {
            coroutine_handle<> h; int f = (int)g.u(6); g.note("convert %d by path %d", k, f);
            if (f == 0) h = s.typedErase(); else if (f == 1) h = coroutine_handle<>::from_address(s.e.address()); else if (f == 2) { h = nullptr; REQUIRE(!h && h == coroutine_handle<>(), "null handle"); h = s.e; }
            else if (f == 3) { std::coroutine_handle<> a = s.e.std_cast(), b = s.typedStd(), c = (std::coroutine_handle<>)s.e; REQUIRE(a == b && a == s.s && a == c, "the standard form of coroutine %d is not always the same", k); REQUIRE(a.address() && a, "standard form is null"); h = s.e; }
            else if (f == 4) { h = coroutine_handle<>(s.s); REQUIRE(h.std_cast() == s.s, "the standard form does not survive a round trip"); if (s.mac) { REQUIRE(h.is_std(), "library form of a standard handle is not native"); h = s.e; } }
            else { h = coroutine_handle<>(std::coroutine_handle<>(s.s)); if (s.mac) h = s.e; }
            pool.push_back({ h, k }); break;
        }
        case 4: s.typed(2); break;
        case 5: // comparisons
            for (auto& a : pool) for (auto& b : pool)
            {
                if (subs[a.second].gone || subs[b.second].gone) continue;
                bool same = a.second == b.second; REQUIRE((a.first == b.first) == same && (a.first != b.first) == !same, "handles of coroutines %d and %d compare %s", a.second, b.second, a.first == b.first ? "equal" : "different");
                REQUIRE((a.first < b.first) + (a.first > b.first) + (a.first == b.first) == 1 && (a.first <= b.first) == !(a.first > b.first) && (a.first >= b.first) == !(a.first < b.first), "handle ordering is inconsistent");
                REQUIRE((a.first.std_cast() == b.first.std_cast()) == same, "standard forms of coroutines %d and %d compare wrongly", a.second, b.second);
            }
            break;
        case 6: // destroy through some form
        {
            if (!g.chance(1, 4)) break;
            int f = (int)g.u(4); g.note("destroy %d in form %d", k, f); forms |= 64 << f;
            if (f == 0) s.typed(1); else if (f == 1) s.e.destroy(); else if (f == 2) s.s.destroy(); else coroutine_handle<>(s.s).destroy();
            s.gone = true; REQUIRE(s.st.destroyed == 1, "destroying coroutine %d in form %d destroyed its promise %d times", k, f, s.st.destroyed); break;
        }
        default:
        {
            coroutine_handle<> n = noop_coroutine(); n.resume(); REQUIRE(!n.done(), "a noop coroutine says it is done"); n.destroy(); n(); auto q = n.std_cast(); q.resume(); REQUIRE(!q.done() && (bool)n, "noop"); q.destroy();
            REQUIRE(n == noop_coroutine() && !(n == s.e), "noop handles compare wrongly");
        }
        }
        for (int j = 0; j < count; ++j)
        {
            Subject& t = subs[j]; if (t.gone) continue;
            REQUIRE(t.typedDone() == t.finished && t.e.done() == t.finished && t.s.done() == t.finished && coroutine_handle<>(t.s).done() == t.finished, "coroutine %d is %s: typed handle says done=%d, erased %d, standard %d", j, t.finished ? "finished" : "not finished", t.typedDone(), t.e.done(), t.s.done());
            REQUIRE(t.st.destroyed == 0, "coroutine %d was destroyed", j);
        }
    }
    for (auto& s : subs) if (!s.gone) { int f = (int)g.u(3); if (f == 0) s.typed(1); else if (f == 1) s.e.destroy(); else s.s.destroy(); REQUIRE(s.st.destroyed == 1, "destroying a coroutine in form %d destroyed its promise %d times", f, s.st.destroyed); }
    REQUIRE(Track::live == before, "%ld objects left", Track::live - before);
    if (resumes >= 3 && __builtin_popcount(forms) >= 2) g.nontrivial();
}

// ---------------------------------------------------------------- chains and loops
static char* lo; static char* hi;
__attribute__((noinline)) static void probe() { char c; char* p = &c; asm volatile("" ::"r"(p) : "memory"); if (!lo || p < lo) lo = p; if (!hi || p > hi) hi = p; }
// a task of another library, knowing only standard handles
struct Foreign
{
    struct promise_type
    {
        std::coroutine_handle<> cont; long v = 0; std::exception_ptr ex;
        Foreign get_return_object() { return Foreign{ std::coroutine_handle<promise_type>::from_promise(*this) }; }
        std::suspend_always initial_suspend() { return {}; }
        struct Fin { bool await_ready() noexcept { return false; } std::coroutine_handle<> await_suspend(std::coroutine_handle<promise_type> h) noexcept { return h.promise().cont; } void await_resume() noexcept {} };
        Fin final_suspend() noexcept { return {}; }
        void return_value(long x) { v = x; } void unhandled_exception() { ex = std::current_exception(); }
    };
    std::coroutine_handle<promise_type> h;
    explicit Foreign(std::coroutine_handle<promise_type> x) : h(x) {} Foreign(Foreign&& o) noexcept : h(std::exchange(o.h, nullptr)) {} ~Foreign() { if (h) h.destroy(); }
    bool await_ready() { return false; }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) { h.promise().cont = c; return h; }
    long await_resume() { if (h.promise().ex) std::rethrow_exception(h.promise().ex); return h.promise().v; }
};
struct Plan { std::vector<unsigned char> link; int leaf = 0; std::coroutine_handle<> sh; coroutine_handle<> mh; int via = 0; long started = 0; };
struct LeafPark
{
    Plan* p; bool await_ready() { return false; }
    template<class P> void await_suspend(std::coroutine_handle<P> h) { p->sh = h; if (p->via) p->mh = coroutine_handle<>(h); }
    template<class P> void await_suspend(coroutine_handle<P> h) { if (p->via) p->mh = h; else p->sh = h.std_cast(); }
    void await_resume() {}
};
// awaiters that do not suspend although asked to
struct Stay { bool await_ready() { return false; } template<class H> bool await_suspend(H) { return false; } int await_resume() { probe(); return 1; } };
struct StaySelf { bool await_ready() { return false; } std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { return h; } int await_resume() { probe(); return 1; } };
struct StayMine { bool await_ready() { return false; } coroutine_handle<> await_suspend(coroutine_handle<> h) { return h; } std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { return h; } int await_resume() { probe(); return 1; } };
// link kinds: 0 native task 1 macro task 2 native, wrapped await 3 macro, wrapped await 4 foreign task 5 native lvalue 6 macro lvalue 7 native catching 8 macro try
static task<long> natLink(Plan* p, size_t d, int kind); static task<long> macLink(Plan* p, size_t d, int kind); static Foreign forLink(Plan* p, size_t d);
static task<long> linkTask(Plan* p, size_t d) { int k = p->link[d]; return k == 1 || k == 3 || k == 6 || k == 8 ? macLink(p, d, k) : natLink(p, d, k == 4 ? 0 : k); }
static bool foreignNext(Plan* p, size_t d) { return d < p->link.size() && p->link[d] == 4; }
static Foreign forLink(Plan* p, size_t d)
{
    probe(); ++p->started; long r = 0;
    if (d + 1 == p->link.size()) { if (p->leaf == 1) co_await LeafPark{ p }; else if (p->leaf == 2) throw Boom(5); }
    else if (foreignNext(p, d + 1)) r = co_await forLink(p, d + 1);
    else r = co_await linkTask(p, d + 1);
    probe(); co_return r + 1;
}
static task<long> natLink(Plan* p, size_t d, int kind)
{
    probe(); ++p->started; long r = 0;
    if (d + 1 == p->link.size()) { if (p->leaf == 1) co_await LeafPark{ p }; else if (p->leaf == 2) throw Boom(5); }
    else if (foreignNext(p, d + 1)) r = co_await forLink(p, d + 1);
    else if (kind == 2) { auto w = co_await wrap(linkTask(p, d + 1)); r = w.value(); }
    else if (kind == 5) { auto t = linkTask(p, d + 1); r = co_await t; }
    else r = co_await linkTask(p, d + 1);
    probe(); co_return r + 1;
}
static task<long> macLink(Plan* p, size_t d, int kind)
{
    MC_BEGIN(task<long>, p, d, kind, r = long{}, w = result<long>{}, t = task<long>{});
    probe(); ++p->started;
    if (d + 1 == p->link.size()) { if (p->leaf == 1) { MC_AWAIT(LeafPark{ p }); } else if (p->leaf == 2) throw Boom(5); }
    else if (foreignNext(p, d + 1)) { MC_AWAIT_SET(r, forLink(p, d + 1)); }
    else if (kind == 3) { MC_AWAIT_SET(w, wrap(linkTask(p, d + 1))); r = w.value(); }
    else if (kind == 6) { t = linkTask(p, d + 1); MC_AWAIT_SET(r, t); }
    else if (kind == 8) { MC_AWAIT_TRY(w, linkTask(p, d + 1)); r = w.value(); }
    else { MC_AWAIT_SET(r, linkTask(p, d + 1)); }
    probe(); MC_RETURN(r + 1);
    MC_END();
}
static task<long> natRoot(Plan* p) { long r = 0; if (foreignNext(p, 0)) r = co_await forLink(p, 0); else r = co_await linkTask(p, 0); co_return r; }
static task<long> macRoot(Plan* p) { MC_BEGIN(task<long>, p, r = long{}); if (foreignNext(p, 0)) { MC_AWAIT_SET(r, forLink(p, 0)); } else { MC_AWAIT_SET(r, linkTask(p, 0)); } MC_RETURN(r); MC_END(); }
static void genPlan(pbt::Gen& g, Plan& p, size_t n)
{
    unsigned char pat[12]; int m = 1 + (int)g.u(6); for (int i = 0; i < m; ++i) pat[i] = (unsigned char)g.u(8) + (g.b() ? 1 : 0);
    p.link.resize(n); for (size_t i = 0; i < n; ++i) p.link[i] = pat[i % m];
    p.leaf = (int)g.weighted({ 2, 3, 1 }); p.via = (int)g.u(2);
    std::string s; for (int i = 0; i < m; ++i) s += "012345678"[pat[i]];
    g.note("chain of %zu links of kinds %s (repeated), leaf %s", n, s.c_str(), p.leaf == 0 ? "immediate" : p.leaf == 1 ? "suspends" : "throws");
    if (p.leaf == 2) g.label("throws"); if (p.leaf == 1) g.label("suspends");
}
static long runChain(pbt::Gen& g, Plan& p)
{
    auto t = g.b() ? natRoot(&p) : macRoot(&p);
    REQUIRE(p.started == 0, "a lazy task started before it was awaited");
    auto b = make_blocking(std::move(t));
    if (p.leaf == 1) { REQUIRE(p.started == (long)p.link.size(), "%ld links started", p.started); if (p.via) p.mh.resume(); else p.sh.resume(); }
    try { long r = b.get(); REQUIRE(p.leaf != 2, "the exception did not arrive"); return r; } catch (Boom& e) { REQUIRE(p.leaf == 2 && e.id == 5, "wrong exception"); return (long)p.link.size(); }
}
PBT_SECTION(mixed_chains, 20000, 600000)
{
    Plan p; genPlan(g, p, 1 + g.size(24));
    long r = runChain(g, p); REQUIRE(r == (long)p.link.size() && p.started == r, "a chain of %zu coroutines returned %ld, %ld bodies ran", p.link.size(), r, p.started);
    if (p.link.size() >= 3) g.nontrivial();
}
static const long BOUND = 24576;
PBT_SECTION(chain_stack, 300, 4000)
{
    Plan p; size_t n = g.chance(1, 8) ? 20000 + g.u(80000) : 2000 + g.u(3000); genPlan(g, p, n);
    // the bound is the frames of the library and of the harness, at rest
    lo = hi = nullptr; probe();
    long r = runChain(g, p); REQUIRE(r == (long)n && p.started == (long)n, "a chain of %zu coroutines returned %ld, %ld bodies ran", n, r, p.started);
    REQUIRE(hi - lo < BOUND, "a chain of %zu awaiting coroutines used %ld bytes of stack", n, (long)(hi - lo));
    g.count("links", n); g.nontrivial();
}
static task<long> natOne() { probe(); co_return 1; }
static task<long> macOne() { MC_BEGIN(task<long>); probe(); MC_RETURN(1); MC_END(); }
static eager_task<long> natEager() { probe(); co_return 1; }
static eager_task<long> macEager() { MC_BEGIN(eager_task<long>); probe(); MC_RETURN(1); MC_END(); }
static Foreign forOne() { probe(); co_return 1; }
static task<> natThrow() { probe(); throw Boom(1); co_return; }
static task<> macThrow() { MC_BEGIN(task<>); probe(); throw Boom(1); MC_END(); }
struct Loop { std::vector<unsigned char> k; int n = 0; long count = 0; };
enum { LOOPS = 18 };
static const char* loopName[] = { "native task", "macro task", "native eager task", "macro eager task", "foreign task", "awaiter staying by bool", "awaiter staying by standard handle", "awaiter staying by library handle", "suspend_never", "wrapped native task", "wrapped macro task", "wrapped throwing native task", "wrapped throwing macro task", "when_all of native and macro", "set event", "task of task", "when_all_ready", "async scope" };
static task<long> natNest() { probe(); co_return co_await macOne(); }
static task<long> natLoop(Loop* l)
{
    async_manual_reset_event evt(true);
    for (int i = 0; i < l->n; ++i)
    {
        int k = l->k[i % l->k.size()]; long r = 0;
        if (k == 0) r = co_await natOne(); else if (k == 1) r = co_await macOne(); else if (k == 2) r = co_await natEager(); else if (k == 3) r = co_await macEager();
        else if (k == 4) r = co_await forOne(); else if (k == 5) r = co_await Stay{}; else if (k == 6) r = co_await StaySelf{}; else if (k == 7) r = co_await StayMine{};
        else if (k == 8) { co_await suspend_never{}; r = 1; } else if (k == 9) { auto w = co_await wrap(natOne()); r = w.value(); } else if (k == 10) { auto w = co_await wrap(macOne()); r = w.value(); }
        else if (k == 11) { auto w = co_await wrap(natThrow()); r = w.has_error(); } else if (k == 12) { auto w = co_await wrap(macThrow()); r = w.has_error(); }
        else if (k == 13) { auto w = co_await when_all_ready(natOne(), macOne()); r = std::get<0>(w).result() * std::get<1>(w).result(); }
        else if (k == 14) { co_await evt; r = 1; } else if (k == 15) r = co_await natNest();
        else if (k == 16) { std::vector<task<long>> v; v.push_back(macOne()); v.push_back(natNest()); auto w = co_await when_all_ready(std::move(v)); r = w[1].result(); }
        else { async_scope s; auto h = s.add(natOne()); r = co_await std::move(h); co_await s; }
        l->count += r; probe();
    }
    co_return l->count;
}
static task<long> macLoop(Loop* l)
{
    MC_BEGIN(task<long>, l, i = 0, k = 0, r = long{}, w = result<long>{}, wv = result<void>{}, evt = std::make_shared<async_manual_reset_event>(true));
    for (; i < l->n; ++i)
    {
        k = l->k[i % l->k.size()]; r = 1;
        if (k == 0) { MC_AWAIT_SET(r, natOne()); } else if (k == 1) { MC_AWAIT_SET(r, macOne()); } else if (k == 2) { MC_AWAIT_SET(r, natEager()); } else if (k == 3) { MC_AWAIT_SET(r, macEager()); }
        else if (k == 4) { MC_AWAIT_SET(r, forOne()); } else if (k == 5) { MC_AWAIT_SET(r, Stay{}); } else if (k == 6) { MC_AWAIT_SET(r, StaySelf{}); } else if (k == 7) { MC_AWAIT_SET(r, StayMine{}); }
        else if (k == 8) { MC_AWAIT(suspend_never{}); } else if (k == 9) { MC_AWAIT_SET(w, wrap(natOne())); r = w.value(); } else if (k == 10) { MC_AWAIT_TRY(w, macOne()); r = w.value(); }
        else if (k == 11) { MC_AWAIT_TRY(wv, natThrow()); r = wv.has_error(); } else if (k == 12) { MC_AWAIT_SET(wv, wrap(macThrow())); r = wv.has_error(); }
        else if (k == 13) { MC_AWAIT(when_all_ready(natOne(), macOne())); }
        else if (k == 14) { MC_AWAIT(*evt); } else if (k == 15) { MC_AWAIT_SET(r, natNest()); }
        else { MC_AWAIT(when_all_ready(natNest(), macEager())); }
        l->count += r; probe();
    }
    MC_RETURN(l->count);
    MC_END();
}
PBT_SECTION(loop_stack, 600, 8000)
{
    Loop l; int m = 1 + (int)g.u(6); std::string s; for (int i = 0; i < m; ++i) { l.k.push_back((unsigned char)g.u(LOOPS)); s += loopName[l.k.back()]; s += ", "; }
    l.n = 2000 + (int)g.u(4000); bool mac = g.b(); g.note("%s loop of %d awaits of %s", mac ? "macro" : "native", l.n, s.c_str());
    lo = hi = nullptr; probe();
    long r = sync_wait(mac ? macLoop(&l) : natLoop(&l));
    REQUIRE(r == l.n, "%d awaits gave %ld results", l.n, r);
    REQUIRE(hi - lo < BOUND, "%d awaits in a loop used %ld bytes of stack", l.n, (long)(hi - lo));
    g.count("awaits", l.n); g.nontrivial();
}
