#include "common.h"
#include "vsched_on.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "macoro/when_all.h"
#include "macoro/sync_wait.h"
#include "all_macoro_src.inc"
#include "zoo.h"
#include "vsched_off.h"
using namespace macoro;

struct Member { XEv ev; Plan p; Out o; int obj = 0; int kind = 0; };
struct Group
{
    std::vector<std::unique_ptr<Member>> m;
    std::vector<std::vector<int>> fires; // per thread: members to fire, in order
    int resumed = 0; int endsAtResume = -1; int again = 0;
    std::vector<int> startsBefore;
    int susp = 0, thrown = 0, nt = 0;
    bool lval, macro, rres, reawait;
    void gen(pbt::Gen& g, int n)
    {
        lval = g.b(); macro = g.b(); rres = g.b(); reawait = g.b(); nt = 1 + (int)g.u(3);
        fires.resize(nt);
        std::vector<int> all;
        for (int i = 0; i < n; ++i)
        {
            auto x = std::make_unique<Member>(); x->p.ev = &x->ev; x->p.nSusp = (int)g.biased(4, 2, 3); x->p.throws = g.chance(1, 4); x->p.ek = (int)g.biased(exk::n, 1, 2); x->p.value = 2 + i * 1000 + (int)g.u(500) * 2;
            x->obj = x->p.value; x->p.ref = &x->obj; susp += x->p.nSusp > 0; thrown += x->p.throws;
            for (int k = 0; k < x->p.nSusp; ++k) all.push_back(i);
            m.push_back(std::move(x));
        }
        for (int i = (int)all.size() - 1; i > 0; --i) std::swap(all[i], all[i - g.u(i + 1)]);
        for (int i : all) fires[g.u(nt)].push_back(i);
        // all steps of one member are fired by the thread of its first one, so that no thread waits for another
        std::vector<int> owner(n, -1);
        for (int t = 0; t < nt; ++t) { std::vector<int> f; for (int i : fires[t]) { if (owner[i] < 0) owner[i] = t; if (owner[i] == t) f.push_back(i); } fires[t] = f; }
        for (int i = 0; i < n; ++i) { int c = 0; for (int t = 0; t < nt; ++t) for (int j : fires[t]) c += j == i; for (; c < m[i]->p.nSusp; ++c) fires[owner[i]].push_back(i); }
    }
    int ends() { int e = 0; for (auto& x : m) e += x->p.ends; return e; }
    int starts() { int e = 0; for (auto& x : m) e += x->p.starts; return e; }
    void atResume() { for (auto& x : m) x->p.seen("the group"); vs::Quiet q; if (++resumed == 1) endsAtResume = ends(); }
    void story(pbt::Gen& g, const char* what)
    {
        g.note("when_all_ready of %zu (%s), %s, awaited by a %s coroutine, %d completing threads", m.size(), what, lval ? "lvalue" : "rvalue", macro ? "macro" : "native", nt);
        for (auto& x : m) g.note("  member: %d suspension(s), %s", x->p.nSusp, x->p.throws ? "throws" : "returns");
    }
    void run(pbt::Gen& g, const std::function<task<void>()>& mk)
    {
        uint64_t sw = 0;
        vs::run(g, [&] {
            std::vector<std::vs_thread> th;
            for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { for (int i : fires[t]) m[i]->ev.fire(); });
            drive(mk());
            for (auto& t : th) t.join();
            sw = vs::switches();
        });
        REQUIRE(resumed == 1, "the waiter was resumed %d times", resumed);
        REQUIRE(endsAtResume == (int)m.size(), "the waiter was resumed when %d of %zu members had finished", endsAtResume, m.size());
        for (auto& x : m) x->o.check(x->p, "member");
        if (susp >= 2 && sw > (uint64_t)nt * 2) g.nontrivial();
        if (thrown && m.size() > 1) g.label("some member throws");
    }
    static Drv drive(task<void> t) { co_await t; }
};

template<class T, class W> void readOne(Member& x, W& w, bool rv)
{
    // a result can be read any number of times; only a value read as an rvalue is gone
    for (int i = 0; i < x.p.value / 2 % 3; ++i) { Out o; o.run<T>(x.p, [&]() -> decltype(auto) { return w.result(); }); o.check(x.p, "member read before"); }
    if (rv) x.o.run<T>(x.p, [&]() -> decltype(auto) { return std::move(w).result(); });
    else x.o.run<T>(x.p, [&]() -> decltype(auto) { return w.result(); });
    if (rv && !x.p.throws) return;
    for (int i = 0; i < x.p.value / 6 % 3; ++i) { Out o; o.run<T>(x.p, [&]() -> decltype(auto) { return w.result(); }); o.check(x.p, "member read again"); }
}
template<class... T, class R, size_t... I> void readAll(Group& G, R& r, std::index_sequence<I...>)
{
    static_assert(std::tuple_size_v<std::remove_cvref_t<R>> == sizeof...(T));
    (readOne<T>(*G.m[I], std::get<I>(r), G.rres), ...);
}

template<class... T, class F> task<void> packNative(Group& G, F mk)
{
    if (G.lval)
    {
        auto w = mk();
        { vs::Quiet q; for (auto& x : G.m) if (x->kind != 2 && x->kind != 3) REQUIRE(x->p.starts == 0, "started before the group was awaited"); }
        auto&& r = co_await w;
        G.atResume();
        readAll<T...>(G, r, std::index_sequence_for<T...>{});
        if constexpr (sizeof...(T) != 0) if (G.reawait) { auto& r2 = co_await w; REQUIRE(&r2 == &r, "awaiting again gives another result"); }
    }
    else { auto r = co_await mk(); G.atResume(); readAll<T...>(G, r, std::index_sequence_for<T...>{}); }
}

template<class W> using StoreOf = std::remove_cvref_t<decltype(std::declval<W&>().operator co_await().await_resume())>;
template<class... T, class F> task<void> packMacro(Group& G, F mk)
{
    using W = decltype(mk());
    MC_BEGIN(task<void>, &G, mk, w = std::optional<W>{}, r = std::optional<StoreOf<W>>{}, at = (StoreOf<W>*)nullptr);
    if (G.lval)
    {
        w.emplace(mk());
        MC_AWAIT_FN([&](auto&& x) { at = &x; }, *w);
        G.atResume();
        readAll<T...>(G, *at, std::index_sequence_for<T...>{});
    }
    else
    {
        MC_AWAIT_FN([&](auto&& x) { r.emplace(std::move(x)); }, mk());
        G.atResume();
        readAll<T...>(G, *r, std::index_sequence_for<T...>{});
    }
    MC_END();
}
template<class... T, class F> void pack(pbt::Gen& g, Group& G, const char* what, F mk)
{
    G.story(g, what);
    G.run(g, [&]() -> task<void> { if constexpr (sizeof...(T) != 0) if (G.macro) return packMacro<T...>(G, mk); return packNative<T...>(G, mk); });
}
#define P(i) G.m[i]->p

// one or two members of any awaitable kind
template<class T> void one(pbt::Gen& g, Group& G)
{
    G.gen(g, 1); int k = G.m[0]->kind = (int)g.u(nZoo);
    withZoo<T>(k, P(0), [&](auto mk) { pack<T>(g, G, zooNames[k], [mk] { return when_all_ready(mk()); }); });
}
PBT_SECTION(pack_kinds, 50000, 1500000)
{
    LiveCheck lc;
    { Group G;
    switch (g.u(6))
    {
    case 0: one<int>(g, G); break;
    case 1: one<void>(g, G); break;
    case 2: one<Val>(g, G); break;
    case 3: one<MVal>(g, G); break;
    case 4: one<int&>(g, G); break;
    case 5:
    {
        G.gen(g, 2); int a = G.m[0]->kind = (int)g.u(nZoo), b = G.m[1]->kind = (int)g.u(nZoo);
        g.note("%s and %s", zooNames[a], zooNames[b]);
        withZoo<Val>(a, P(0), [&](auto m1) { withZoo<void>(b, P(1), [&](auto m2) { pack<Val, void>(g, G, "two kinds", [m1, m2] { return when_all_ready(m1(), m2()); }); }); });
        break;
    }
    } }
    lc.done();
}
// larger packs of mixed kinds and types
PBT_SECTION(pack_sizes, 60000, 2000000)
{
    LiveCheck lc;
    { Group G;
    switch (g.u(6))
    {
    case 0: G.gen(g, 0); pack<>(g, G, "empty pack", [] { return when_all_ready(); }); break;
    case 1: G.gen(g, 3); G.m[1]->kind = 2; pack<int, Val, void>(g, G, "task, eager, awaiter", [&] { return when_all_ready(zMacTask<int>(P(0)), zNatEager<Val>(P(1)), Custom<void, 0>(P(2))); }); break;
    case 2: G.gen(g, 3); pack<int&, int&, int&>(g, G, "references", [&] { return when_all_ready(zNatTask<int&>(P(0)), Custom<int&, 2>(P(1)), MemberAw<int&>{ &P(2) }); }); break;
    case 3: G.gen(g, 4); G.m[3]->kind = 3; pack<MVal, void, Val, int>(g, G, "four", [&] { return when_all_ready(zNatTask<MVal>(P(0)), zMacTask<void>(P(1)), FreeAw<Val>{ &P(2) }, zMacEager<int>(P(3))); }); break;
    case 4: G.gen(g, 5); pack<void, void, void, void, void>(g, G, "five void tasks", [&] { return when_all_ready(zNatTask<void>(P(0)), zMacTask<void>(P(1)), zNatTask<void>(P(2)), Custom<void, 1>(P(3)), zMacTask<void>(P(4))); }); break;
    case 5: G.gen(g, 7); pack<Val, MVal, int, Val, MVal, int, Val>(g, G, "seven", [&] { return when_all_ready(zNatTask<Val>(P(0)), zMacTask<MVal>(P(1)), zNatTask<int>(P(2)), zMacTask<Val>(P(3)), zNatTask<MVal>(P(4)), MemberAw<int>{ &P(5) }, zNatTask<Val>(P(6))); }); break;
    } }
    lc.done();
}

// ranges of any size
template<class T, class F> task<void> vecNative(Group& G, F mk)
{
    if (G.lval)
    {
        auto w = mk();
        { vs::Quiet q; for (auto& x : G.m) if (x->kind < 2) REQUIRE(x->p.starts == 0, "started before the group was awaited"); }
        auto& r = co_await w; G.atResume();
        REQUIRE(r.size() == G.m.size(), "%zu results for %zu members", r.size(), G.m.size());
        for (size_t i = 0; i < r.size(); ++i) readOne<T>(*G.m[i], r[i], G.rres);
        if (G.reawait && r.size()) { auto& r2 = co_await w; REQUIRE(&r2 == &r, "awaiting again gives another result"); }
    }
    else
    {
        auto r = co_await mk(); G.atResume();
        REQUIRE(r.size() == G.m.size(), "%zu results for %zu members", r.size(), G.m.size());
        for (size_t i = 0; i < r.size(); ++i) readOne<T>(*G.m[i], r[i], G.rres);
    }
}
template<class T, class F> task<void> vecMacro(Group& G, F mk)
{
    using W = decltype(mk());
    MC_BEGIN(task<void>, &G, mk, r = std::optional<StoreOf<W>>{});
    MC_AWAIT_FN([&](auto&& x) { r.emplace(std::move(x)); }, mk());
    G.atResume();
    REQUIRE(r->size() == G.m.size(), "%zu results for %zu members", r->size(), G.m.size());
    for (size_t i = 0; i < r->size(); ++i) readOne<T>(*G.m[i], (*r)[i], G.rres);
    MC_END();
}
template<class T> void range(pbt::Gen& g, Group& G)
{
    int n = g.size(8); int kind = (int)g.u(4); G.gen(g, n); for (auto& x : G.m) x->kind = kind;
    static const char* N[] = { "range of native tasks", "range of macro tasks", "range of eager tasks", "range of awaitables" };
    G.story(g, N[kind]);
    auto go = [&](auto mk) { G.run(g, [&]() -> task<void> { if (G.macro) return vecMacro<T>(G, mk); return vecNative<T>(G, mk); }); };
    if constexpr (!std::is_reference_v<T>)
        if (kind == 1) return go([&] { std::vector<task<T>> v; for (auto& x : G.m) v.push_back(zMacTask<T>(x->p)); return when_all_ready(std::move(v)); });
    if (kind == 2) return go([&] { std::vector<eager_task<T>> v; for (auto& x : G.m) v.push_back(zNatEager<T>(x->p)); return when_all_ready(std::move(v)); });
    if (kind == 3) return go([&] { std::vector<MemberAw<T>> v; for (auto& x : G.m) v.push_back(MemberAw<T>{ &x->p }); return when_all_ready(std::move(v)); });
    go([&] { std::vector<task<T>> v; for (auto& x : G.m) v.push_back(zNatTask<T>(x->p)); return when_all_ready(std::move(v)); });
}
PBT_SECTION(ranges, 80000, 3000000)
{
    LiveCheck lc;
    { Group G;
    switch (g.u(5))
    {
    case 0: range<int>(g, G); break;
    case 1: range<void>(g, G); break;
    case 2: range<Val>(g, G); break;
    case 3: range<MVal>(g, G); break;
    case 4: range<int&>(g, G); break;
    }
    if (G.m.empty()) g.label("empty range"); }
    lc.done();
}
// a group that is never awaited starts nothing and releases everything
PBT_SECTION(dropped_group, 5000, 100000)
{
    LiveCheck lc;
    { Group G; int n = g.size(6); G.gen(g, n);
    { std::vector<task<Val>> v; for (auto& x : G.m) v.push_back(g.b() ? zMacTask<Val>(x->p) : zNatTask<Val>(x->p)); auto w = when_all_ready(std::move(v)); if (g.b()) { auto w2 = std::move(w); } }
    REQUIRE(G.starts() == 0, "a group that was never awaited started %d members", G.starts());
    if (n > 1) g.nontrivial(); }
    lc.done();
}
