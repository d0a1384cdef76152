#include "common.h"
#include "vsched_on.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "macoro/sync_wait.h"
#include "all_macoro_src.inc"
#include "zoo.h"
#include "vsched_off.h"
using namespace macoro;

template<class T> void one(pbt::Gen& g, int& suspended)
{
    XEv ev; Plan p; p.ev = &ev; p.nSusp = (int)g.u(4); p.throws = g.chance(1, 4); p.ek = (int)g.biased(exk::n, 1, 2); p.value = (int)g.u(1000); int obj = p.value; p.ref = &obj;
    int kind = (int)g.u(nZoo), form = (int)g.u(6); int failing = g.chance(1, 10) ? (int)g.u(3) : -1; if (failing >= 0) { kind = 4; p.throws = true; p.nSusp = 0; }
    static const char* F[] = { "sync_wait(rvalue)", "sync_wait(lvalue)", "rvalue | sync_wait()", "lvalue | sync_wait()", "make_blocking(rvalue).get()", "rvalue | make_blocking()" };
    g.note("%s with %d suspension(s), %s, %s", F[form], p.nSusp, p.throws ? "throws" : "returns", failing >= 0 ? failNames[failing] : zooNames[kind]);
    Out o; int endsAtReturn = -1;
    vs::run(g, [&] {
        std::vs_thread A([&] { for (int i = 0; i < p.nSusp; ++i) { if (kind == 5 && p.throws && p.value % 2) break; ev.fire(); } });
        auto wait = [&](auto mk) {
            using A = decltype(mk());
            o.run<T>(p, [&]() -> T {
                auto ret = [&]() { vs::Quiet q; endsAtReturn = p.ends; };
                struct R { decltype(ret)& r; ~R() { r(); } } rr{ ret };
                switch (form)
                {
                case 0: return sync_wait(mk());
                case 1: { A a = mk(); return static_cast<T>(sync_wait(a)); }
                case 2: return mk() | sync_wait();
                case 3: { A a = mk(); return static_cast<T>(a | sync_wait()); }
                case 4: { auto b = make_blocking(mk()); auto c = std::move(b); return c.get(); }
                default: { auto b = mk() | make_blocking(); return b.get(); }
                }
            });
        };
        if (failing >= 0) withFailing<T>(failing, p, wait); else withZoo<T>(kind, p, wait);
        A.join();
    });
    o.check(p, F[form]);
    REQUIRE(endsAtReturn == 1, "%s returned before the work ended", F[form]);
    if (p.nSusp) suspended = 1;
    g.label(F[form]);
}
// move-only results cannot be taken from an lvalue task by value
template<> void one<MVal>(pbt::Gen& g, int& suspended)
{
    XEv ev; Plan p; p.ev = &ev; p.nSusp = (int)g.u(4); p.throws = g.chance(1, 4); p.ek = (int)g.biased(exk::n, 1, 2); p.value = (int)g.u(1000);
    int kind = (int)g.u(nZoo); Out o; int endsAtReturn = -1;
    g.note("sync_wait(rvalue), move-only, %d suspension(s)", p.nSusp);
    vs::run(g, [&] {
        std::vs_thread A([&] { for (int i = 0; i < p.nSusp; ++i) { if (kind == 5 && p.throws && p.value % 2) break; ev.fire(); } });
        withZoo<MVal>(kind, p, [&](auto mk) { o.run<MVal>(p, [&]() -> MVal { return sync_wait(mk()); }); });
        { vs::Quiet q; endsAtReturn = p.ends; }
        A.join();
    });
    o.check(p, "sync_wait"); REQUIRE(endsAtReturn == 1, "returned before the work ended");
    if (p.nSusp) suspended = 1;
}
PBT_SECTION(sync_schedules, 100000, 3000000)
{
    LiveCheck lc; int susp = 0;
    switch (g.u(5))
    {
    case 0: one<int>(g, susp); break;
    case 1: one<void>(g, susp); break;
    case 2: one<Val>(g, susp); break;
    case 3: one<MVal>(g, susp); break;
    case 4: one<int&>(g, susp); break;
    }
    lc.done();
    if (susp && vs::switches() > 2) g.nontrivial();
}

// Several blocking handles at once, completed by several threads, collected in any order.
PBT_SECTION(blocking_handles, 40000, 1500000)
{
    LiveCheck lc;
    int n = 1 + (int)g.u(5), nt = 1 + (int)g.u(2);
    struct One { XEv ev; Plan p; int kind; Out o; int endsAtReturn = -1; };
    std::vector<One> w(n); std::vector<int> order(n);
    std::vector<std::vector<int>> fires(nt);
    for (int i = 0; i < n; ++i)
    {
        auto& x = w[i]; x.p.ev = &x.ev; x.p.nSusp = (int)g.u(3); x.p.throws = g.chance(1, 4); x.p.value = (int)g.u(1000); x.kind = (int)g.u(2);
        order[i] = i; fires[g.u(nt)].push_back(i);
    }
    for (int i = n - 1; i > 0; --i) std::swap(order[i], order[i - g.u(i + 1)]);
    for (auto& f : fires) for (int i = (int)f.size() - 1; i > 0; --i) std::swap(f[i], f[i - g.u(i + 1)]);
    g.note("%d blocking handles, %d completing threads", n, nt);
    int susp = 0;
    vs::run(g, [&] {
        std::vector<blocking_task<task<Val>>> b;
        for (auto& x : w)
        {
            b.push_back(make_blocking(x.kind ? zMacTask<Val>(x.p) : zNatTask<Val>(x.p)));
            vs::Quiet q; REQUIRE(x.p.starts == 1, "not started by make_blocking"); REQUIRE(x.p.ends == (x.p.nSusp == 0), "wrong progress"); susp += x.p.nSusp;
        }
        std::vector<std::vs_thread> th;
        for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { for (int i : fires[t]) for (int k = 0; k < w[i].p.nSusp; ++k) w[i].ev.fire(); });
        for (int i : order)
        {
            w[i].o.run<Val>(w[i].p, [&] { return b[i].get(); });
            vs::Quiet q; w[i].endsAtReturn = w[i].p.ends;
        }
        for (auto& t : th) t.join();
    });
    for (auto& x : w) { x.o.check(x.p, "blocking handle"); REQUIRE(x.endsAtReturn == 1, "get() returned before the work ended"); }
    w.clear();
    lc.done();
    if (n > 1 && susp > 1) g.nontrivial();
}
