#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include "macoro/task.h"
#include "macoro/wrap.h"
#include "macoro/result.h"
#include "macoro/macros.h"
#include "macoro/sync_wait.h"
#include "all_macoro_src.inc"
#include "zoo.h"
#include "lvaw.h"
#include "vsched_off.h"
using namespace macoro;
// C27: chains of conversions of one awaitable deliver its outcome, started when the last conversion says so.

// yields a reference to a temporary it holds: converted to a value
template<class T> struct RefRef : Custom<void>
{
    T v; RefRef(Plan& p) : Custom<void>(p), v(p.value) {}
    RefRef(RefRef&& o) : Custom<void>(std::move(o)), v(std::move(o.v)) {}
    T&& await_resume() { Custom<void>::await_resume(); return std::move(v); }
};
template<> struct Mk<const int&> { static const int& mk(int, int* p) { return *p; } static int rd(const int& v) { return v; } };
static const char* convName[] = { "make_task", "make_eager", "| make_eager()", "make_task of moved object", "make_eager of moved object", "moved twice", "assigned over another" };
template<class T> static task<T> never(Plan& p) { ++p.starts; throw Boom(1); if constexpr (std::is_void_v<T>) co_return; else co_return Mk<T>::mk(0, p.ref); }
template<class T> struct Chain
{
    std::optional<task<T>> l; std::optional<eager_task<T>> e;
    template<class X> void set(X&& x) { l.reset(); e.reset(); if constexpr (std::is_same_v<std::remove_cvref_t<X>, task<T>>) l.emplace(std::move(x)); else { static_assert(std::is_same_v<std::remove_cvref_t<X>, eager_task<T>>, "result type of a conversion"); e.emplace(std::move(x)); } }
    template<class F> decltype(auto) with(F&& f) { if (l) { auto t = std::move(*l); return f(std::move(t)); } auto t = std::move(*e); return f(std::move(t)); }
    template<class F> decltype(auto) lv(F&& f) { if (l) return f(*l); return f(*e); }
};
// reading an lvalue task gives a reference to its result
template<class T, class A> static task<T> awaitR(A& a) { co_return co_await std::move(a); }
template<class T, class A> requires(std::is_void_v<T>) static task<T> awaitMac(A& a) { MC_BEGIN(task<T>, &a); MC_AWAIT(std::move(a)); MC_END(); }
template<class T, class A> requires(!std::is_void_v<T>) static task<T> awaitMac(A& a) { MC_BEGIN(task<T>, &a); MC_RETURN_AWAIT(std::move(a)); MC_END(); }
template<class T, class A> static task<int> readL(A& a) { if constexpr (std::is_void_v<T>) { co_await a; co_return -7; } else { decltype(auto) x = co_await a; decltype(auto) y = co_await a; REQUIRE(&x == &y, "an lvalue task gives another object the second time"); co_return Mk<T>::rd(x); } }
template<class T, class W> static task<T> awaitWrapped(W w) { auto r = co_await std::move(w); if (r.has_error()) std::rethrow_exception(r.error()); if constexpr (!std::is_void_v<T>) co_return std::move(r.value()); }

template<class T> void one(pbt::Gen& g, bool& interesting)
{
    XEv ev; Plan p; p.ev = &ev; p.nSusp = (int)g.u(4); p.throws = g.chance(1, 4); p.ek = (int)g.biased(exk::n, 1, 2); p.value = (int)g.u(1000); int obj = p.value; p.ref = &obj;
    constexpr bool isVal = std::is_same_v<T, Val> || std::is_same_v<T, MVal>; constexpr bool isRef = std::is_reference_v<T>;
    int kind = (int)g.u(nZoo + (isVal ? 2 : 0)); int failing = g.chance(1, 10) ? (int)g.u(3) : -1; if (failing >= 0) { kind = 4; p.throws = true; p.nSusp = 0; } bool alreadyEager = kind == 2 || kind == 3;
    int nConv = (int)g.u(5); std::vector<int> conv; for (int i = 0; i < nConv; ++i) conv.push_back((int)g.u(7)); int first = (int)g.u(5); int way = (int)g.u(11);
    bool lazy = !alreadyEager && (first == 0 || first == 3); for (int c : conv) if (c == 1 || c == 2 || c == 4) lazy = false;
    bool never_ = way == 10 && lazy; if (way == 10 && !lazy) way = 0;
    if (isRef && (way == 8 || way == 9)) way = 5; // a result of a reference holds a copy
    static const char* W[] = { "sync_wait", "| sync_wait()", "sync_wait lvalue", "make_blocking.get()", "| make_blocking()", "co_await rvalue", "co_await in a macro coroutine", "co_await lvalue twice", "wrapped", "| wrap()", "never" };
    g.note("%s, %d suspension(s), %s: %s", failing >= 0 ? failNames[failing] : kind < nZoo ? zooNames[kind] : "awaiter of an rvalue reference", p.nSusp, p.throws ? "throws" : "returns", convName[first]); for (int c : conv) g.note("  %s", convName[c]); g.note("  taken by %s", W[way]); g.label(W[way]); for (int c : conv) g.count(convName[c]);
    Out o; int endsAtReturn = -1;
    vs::run(g, [&] {
        std::vs_thread th([&] { if (never_) return; for (int i = 0; i < p.nSusp; ++i) { if (kind == 5 && p.throws && p.value % 2) break; ev.fire(); } });
        {
            Chain<T> c; bool lz = !alreadyEager;
            auto expectStarts = [&](const char* w) { vs::Quiet q; REQUIRE(p.starts == (lz ? 0 : 1), "after %s the work was started %d times, expected %d", w, p.starts, lz ? 0 : 1); };
            auto begin = [&](auto mk) {
                if (first == 0) c.set(make_task(mk())); else if (first == 1) c.set(make_eager(mk())); else if (first == 2) c.set(mk() | make_eager());
                else { auto a = mk(); if (first == 3) c.set(make_task(std::move(a))); else c.set(make_eager(std::move(a))); }
            };
            if (failing >= 0) withFailing<T>(failing, p, begin); else if constexpr (isVal) { if (kind >= nZoo) begin([&] { return RefRef<T>(p); }); else withZoo<T>(kind, p, begin); } else if constexpr (std::is_same_v<T, const int&>) withZoo<const int&>(kind, p, begin); else withZoo<T>(kind, p, begin);
            if (first == 1 || first == 2 || first == 4) lz = false; expectStarts(convName[first]);
            for (int k : conv)
            {
                switch (k)
                {
                case 0: case 3: c.with([&](auto&& a) { c.set(make_task(std::move(a))); }); break;
                case 1: case 4: c.with([&](auto&& a) { c.set(make_eager(std::move(a))); }); lz = false; break;
                case 2: c.with([&](auto&& a) { c.set(std::move(a) | make_eager()); }); lz = false; break;
                case 5: c.with([&](auto&& a) { auto b = std::move(a); c.set(std::move(b)); }); break;
                default: if (c.l) { Plan q2; q2.ref = &obj; task<T> t = never<T>(q2); t = std::move(*c.l); c.set(std::move(t)); vs::Quiet q; REQUIRE(q2.starts == 0, "a task assigned over was started"); }
                }
                expectStarts(convName[k]);
            }
            if (never_) { g.label("never awaited"); }
            else o.run<T>(p, [&]() -> T {
                struct R { int& e; Plan& p; ~R() { vs::Quiet q; e = p.ends; } } rr{ endsAtReturn, p };
                switch (way)
                {
                case 0: return c.with([&](auto&& a) -> T { return sync_wait(std::move(a)); });
                case 1: return c.with([&](auto&& a) -> T { return std::move(a) | sync_wait(); });
                case 2: return c.lv([&](auto& a) -> T { if constexpr (std::is_void_v<T> || isRef) return sync_wait(a); else { decltype(auto) x = sync_wait(a); static_assert(std::is_lvalue_reference_v<decltype(x)>); return std::move(x); } });
                case 3: return c.with([&](auto&& a) -> T { auto b = make_blocking(std::move(a)); { vs::Quiet q; REQUIRE(p.starts == 1, "make_blocking did not start the work"); } auto b2 = std::move(b); return b2.get(); });
                case 4: return c.with([&](auto&& a) -> T { auto b = std::move(a) | make_blocking(); { vs::Quiet q; REQUIRE(p.starts == 1, "make_blocking did not start the work"); } return b.get(); });
                case 5: return c.lv([&](auto& a) -> T { return sync_wait(awaitR<T>(a)); });
                case 6: if constexpr (!isRef) return c.lv([&](auto& a) -> T { return sync_wait(awaitMac<T>(a)); }); else return c.lv([&](auto& a) -> T { return sync_wait(awaitR<T>(a)); });
                case 7: { int v = c.lv([&](auto& a) { return sync_wait(readL<T>(a)); }); if constexpr (isRef) { REQUIRE(v == obj, "value %d", v); return obj; } else if constexpr (!std::is_void_v<T>) return T(v); else return; }
                default: if constexpr (!isRef) { if (way == 8) return c.with([&](auto&& a) -> T { return sync_wait(awaitWrapped<T>(wrap(std::move(a)))); }); return c.with([&](auto&& a) -> T { return sync_wait(awaitWrapped<T>(std::move(a) | wrap())); }); } else throw 1;
                }
            });
        }
        th.join();
    });
    if (never_) { REQUIRE(p.starts == 0 && p.ends == 0, "work never awaited was started %d times", p.starts); if (nConv >= 2) interesting = true; return; }
    o.check(p, W[way]);
    REQUIRE(endsAtReturn == 1, "%s returned before the work ended", W[way]);
    if (nConv >= 2 && p.nSusp && vs::switches() > 2) interesting = true;
}
PBT_SECTION(conversion_chains, 300000, 8000000)
{
    LiveCheck lc; bool n = false;
    switch (g.u(6))
    {
    case 0: one<int>(g, n); break;
    case 1: one<void>(g, n); break;
    case 2: one<Val>(g, n); break;
    case 3: one<MVal>(g, n); break;
    case 4: one<const int&>(g, n); break;
    default: one<int&>(g, n); break;
    }
    lc.done(); if (n) g.nontrivial();
}

// ---------------------------------------------------------------- converting a reference to an awaitable
static int rdAny(int v) { return v; }
static int rdAny(const Val& v) { return v.get(); }
static int rdAny(const MVal& v) { return v.get(); }
template<class T, class A> static void useRef(pbt::Gen& g, Plan& p, A& a, int form, Out& o, bool isTask)
{
    using R = awaitable_result_t<A&>;
    bool lz; { vs::Quiet q; lz = p.starts == 0; }
    auto take = [&](auto&& get) {
        try { if constexpr (std::is_void_v<R>) { get(); p.seen("the outcome"); vs::Quiet q; o.kind = 1; o.v = p.value; } else { decltype(auto) x = get(); p.seen("the outcome"); vs::Quiet q; o.kind = 1; o.v = rdAny(x); if constexpr (std::is_lvalue_reference_v<decltype(x)> && std::is_reference_v<T>) o.wrongRef = &x != p.ref; } }
        catch (...) { o.caught(); }
    };
    auto starts = [&](int n) { vs::Quiet q; REQUIRE(p.starts == n, "the work was started %d times, expected %d", p.starts, n); };
    switch (form)
    {
    case 0: { auto t = make_task<A&>(a); starts(lz ? 0 : 1); take([&]() -> R { return sync_wait(std::move(t)); }); break; }
    case 1: { auto t = make_eager<A&>(a); starts(1); take([&]() -> R { return sync_wait(std::move(t)); }); break; }
    case 2: { auto b = make_blocking<A&>(a); starts(1); take([&]() -> R { return b.get(); }); break; }
    case 3: take([&]() -> R { return sync_wait(a); }); break;
    case 4: take([&]() -> R { return a | sync_wait(); }); break;
    default: { auto t = make_task<A&>(a); auto e = make_eager(std::move(t)); starts(1); auto t2 = make_task(std::move(e)); take([&]() -> R { return sync_wait(std::move(t2)); }); break; }
    }
    if (isTask)
    {   // the work itself is finished and can be read again
        Out again; Out save = o; take([&]() -> R { return sync_wait(a); }); again = o; o = save;
        REQUIRE(again.kind == o.kind && again.v == o.v, "the work converted by reference cannot be read again: kind %d value %d", again.kind, again.v);
    }
}
template<class T> static void refOne(pbt::Gen& g, bool& n)
{
    XEv ev; Plan p; p.ev = &ev; p.nSusp = (int)g.u(4); p.throws = g.chance(1, 4); p.ek = (int)g.biased(exk::n, 1, 2); p.value = (int)g.u(1000); int obj = p.value; p.ref = &obj;
    int kind = (int)g.u(nZoo), form = (int)g.u(6); Out o; if (std::is_same_v<T, MVal> && kind >= 4) kind -= 4;
    static const char* F[] = { "make_task<A&>", "make_eager<A&>", "make_blocking<A&>", "sync_wait(lvalue)", "lvalue | sync_wait()", "task, eager, task" };
    g.note("%s: %s, %d suspension(s), %s", zooNames[kind], F[form], p.nSusp, p.throws ? "throws" : "returns"); g.label(F[form]);
    vs::run(g, [&] {
        std::vs_thread th([&] { for (int i = 0; i < p.nSusp; ++i) { if (kind == 5 && p.throws && p.value % 2) break; ev.fire(); } });
        withZoo<T>(kind, p, [&](auto mk) { auto a = mk(); useRef<T>(g, p, a, form, o, kind < 4); });
        th.join();
    });
    o.check(p, F[form]); if (p.nSusp && vs::switches() > 2) n = true;
}
PBT_SECTION(converted_by_reference, 120000, 3000000)
{
    LiveCheck lc; bool n = false;
    switch (g.u(5)) { case 0: refOne<int>(g, n); break; case 1: refOne<void>(g, n); break; case 2: refOne<Val>(g, n); break; case 3: refOne<MVal>(g, n); break; default: refOne<int&>(g, n); }
    lc.done(); if (n) g.nontrivial();
}

// ---------------------------------------------------------------- converting an lvalue leaves it usable
template<class T, class A> static Own lvTake(A& a, lv::Seen& s) { try { if constexpr (std::is_void_v<T>) { co_await a; s = { 1, 0 }; } else { auto&& x = co_await a; s = { 1, lv::rd(x) }; } } catch (...) { s.err(); } }
template<class T, class A> static Own lvTakeR(A a, lv::Seen& s) { try { if constexpr (std::is_void_v<T>) { co_await std::move(a); s = { 1, 0 }; } else { auto&& x = co_await std::move(a); s = { 1, lv::rd(x) }; } } catch (...) { s.err(); } }
template<class T> static void lvOne(pbt::Gen& g, bool& n)
{
    std::vector<std::function<void()>> parked; lv::World w{ &parked };
    int kind = (int)g.u(4), value = (int)g.u(1000), uses = 1 + (int)g.u(6); lv::Core<T> c{ &w, Val(value), value, g.chance(1, 4), false, (int)g.u(exk::n) };
    g.note("%s, %s", lv::kindName[kind], c.throws ? "throws" : "returns");
    static const char* F[] = { "make_task(a)", "make_eager(a)", "a | make_eager()", "make_blocking(a)", "a | make_blocking()", "sync_wait(a)", "a | sync_wait()", "co_await a", "make_task(const a)", "const a | make_eager()", "make_blocking(const a)" };
    lv::with<T>(kind, std::move(c), [&](auto& a) {
        using A = std::remove_reference_t<decltype(a)>; const A& ca = a;
        for (int u = 0; u < uses; ++u)
        {
            int form = (int)g.u(11); bool s = g.b(); a.susp = s && form != 5 && form != 6; lv::Seen seen; Own o; g.note("  %s%s", F[form], a.susp ? ", suspends" : ""); g.count(F[form]);
            long st = w.starts; auto started = [&](long k) { REQUIRE(w.starts == st + k, "%s started the work %ld times, expected %ld", F[form], w.starts - st, k); };
            auto drive = [&] { while (parked.size()) { auto k = std::move(parked.back()); parked.pop_back(); k(); } };
            auto take = [&](auto&& get) { try { if constexpr (std::is_void_v<T>) { get(); seen = { 1, 0 }; } else { auto&& x = get(); seen = { 1, lv::rd(x) }; } } catch (...) { seen.err(); } };
            switch (form)
            {
            case 0: { auto t = make_task(a); started(0); o = lvTakeR<T>(std::move(t), seen); o.start(); break; }
            case 8: { auto t = make_task(ca); started(0); o = lvTakeR<T>(std::move(t), seen); o.start(); break; }
            case 1: { auto t = make_eager(a); started(1); o = lvTakeR<T>(std::move(t), seen); o.start(); break; }
            case 2: { auto t = a | make_eager(); started(1); o = lvTakeR<T>(std::move(t), seen); o.start(); break; }
            case 9: { auto t = ca | make_eager(); started(1); o = lvTakeR<T>(std::move(t), seen); o.start(); break; }
            case 3: { auto b = make_blocking(a); started(1); drive(); take([&]() -> decltype(auto) { return b.get(); }); break; }
            case 4: { auto b = a | make_blocking(); started(1); drive(); take([&]() -> decltype(auto) { return b.get(); }); break; }
            case 10: { auto b = make_blocking(ca); started(1); drive(); take([&]() -> decltype(auto) { return b.get(); }); break; }
            case 5: take([&]() -> decltype(auto) { return sync_wait(a); }); break;
            case 6: take([&]() -> decltype(auto) { return a | sync_wait(); }); break;
            default: o = lvTake<T>(a, seen); o.start();
            }
            drive(); started(1); REQUIRE(w.ends == w.starts, "%s: the work ended %ld times and started %ld times", F[form], w.ends, w.starts);
            REQUIRE(seen.kind == (a.throws ? 2 : 1) && (seen.kind == 1 && std::is_void_v<T> || seen.v == value) && (seen.kind == 1 || seen.ek == a.ek), "%s gave outcome %d with %d, expected %d with %d", F[form], seen.kind, seen.v, a.throws ? 2 : 1, value);
            REQUIRE(a.pay.get() == value, "%s took the payload of an lvalue", F[form]);
        }
    });
    REQUIRE(w.badStarts == 0, "an awaitable without its payload was awaited"); if (uses >= 2) n = true;
}
PBT_SECTION(lvalue_stays_usable, 100000, 2000000)
{
    LiveCheck lc; bool n = false;
    switch (g.u(4)) { case 0: lvOne<int>(g, n); break; case 1: lvOne<void>(g, n); break; case 2: lvOne<Val>(g, n); break; default: lvOne<MVal>(g, n); }
    lc.done(); if (n) g.nontrivial();
}
