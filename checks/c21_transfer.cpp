#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include "macoro/thread_pool.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/start_on.h"
#include "macoro/transfer_to.h"
#include "macoro/inline_scheduler.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "zoo.h"
#include "vsched_off.h"
using namespace macoro;

struct World { pbt::Gen* g; thread_pool* P[2]; std::set<int> mem[2]; int inl = 0, hops = 0, starts = 0; };
// a scheduler that refers to a pool and can be passed by value
struct Sched { thread_pool* p; auto schedule() { return p->schedule(); } };
// handing a handle to the pool directly
struct ByHandle { thread_pool* p; int how; bool await_ready() { return false; } std::coroutine_handle<> go(coroutine_handle<void> h) { if (how == 0) { p->schedule(h); return std::noop_coroutine(); } if (how == 1) { p->post(h); return std::noop_coroutine(); } return p->dispatch(h).std_cast(); }
    template<class P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) { return go(coroutine_handle<void>(h)); } void await_resume() {} };
static int poolOf(World& W) { int s = vs::self(); return W.mem[0].count(s) ? 0 : W.mem[1].count(s) ? 1 : -1; }
struct Body { World* W; int want; int ran = -2; int wantTh = -1; };
static void onStart(void* v) { auto* b = (Body*)v; b->ran = poolOf(*b->W); if (b->want >= 0) REQUIRE(b->ran == b->want, "the body given to start_on(pool %d) runs on %s%d", b->want, b->ran < 0 ? "no pool " : "pool ", b->ran); else REQUIRE(vs::self() == b->wantTh, "the body given to start_on(inline) runs on another thread"); }
struct Step { int op, pool, kind, type; bool late, pipe; Plan plan; XEv ev; Body body; int refv = 0; Out out; };
struct Journey { int kind; std::deque<Step> st; bool done = false; Gate fin; };
static void arrived(World& W, int want, const char* what, int before, int beforePool)
{
    vs::Quiet q; int p = poolOf(W); ++W.hops;
    REQUIRE(p == want, "after %s on pool %d the coroutine runs on %s%d", what, want, p < 0 ? "no pool, thread " : "pool ", p < 0 ? vs::self() : p);
    if (!strcmp(what, "dispatch") && beforePool == want) { ++W.inl; REQUIRE(vs::self() == before, "dispatch on the pool's own thread moved the coroutine to another thread"); }
}
static Drv nestedDispatch(World& W, thread_pool& p, bool& done) { co_await p.dispatch(); done = true; }
// dispatch from inside continues before control returns to the caller
static void inlineCheck(World& W, int pool)
{
    bool in; { vs::Quiet q; in = poolOf(W) == pool; }
    if (!in) return;
    bool done = false; nestedDispatch(W, *W.P[pool], done);
    REQUIRE(done, "dispatch from a thread of the pool suspended the coroutine");
}
template<class T> task<void> doStart(World& W, Step& s)
{
    s.body.W = &W; s.plan.hook = s.kind == 2 || s.kind == 3 ? nullptr : onStart; s.plan.hookArg = &s.body; { vs::Quiet q; s.body.want = s.op == 8 ? -1 : s.pool; s.body.wantTh = vs::self(); ++W.starts; }
    auto& P = *W.P[s.pool];
    // the eager task made by start_on, awaited at once or later
    eager_task<T> e;
    withZoo<T>(s.kind, s.plan, [&](auto mk) {
        if (s.op == 8) { inline_scheduler is; if (s.pipe) e = mk() | start_on(is); else if (s.late) e = mk() | start_on(inline_scheduler{}); else e = start_on(is, mk()); }
        else if (s.op == 7) { Sched v{ &P }; if (s.pipe) e = mk() | start_on(Sched{ &P }); else if (s.late) e = mk() | start_on(v); else e = start_on(v, mk()); }
        else if (s.pipe) e = mk() | start_on(P); else e = start_on(P, mk());
    });
    if (s.late) { int b; { vs::Quiet q; b = poolOf(W); } co_await W.P[1 - s.pool]->schedule(); arrived(W, 1 - s.pool, "schedule", 0, b); }
    try
    {
        if constexpr (std::is_void_v<T>) { co_await std::move(e); s.plan.seen("the started work"); vs::Quiet q; s.out.kind = 1; s.out.v = s.plan.value; }
        else { decltype(auto) x = co_await std::move(e); s.plan.seen("the started work"); vs::Quiet q; s.out.kind = 1; s.out.v = Mk<T>::rd(x); if constexpr (std::is_reference_v<T>) s.out.wrongRef = &x != s.plan.ref; }
    }
    catch (...) { s.out.caught(); }
}
static task<void> startAny(World& W, Step& s)
{
    switch (s.type) { case 0: return doStart<int>(W, s); case 1: return doStart<void>(W, s); case 2: return doStart<Val>(W, s); case 3: return doStart<MVal>(W, s); default: return doStart<int&>(W, s); }
}
static task<void> jNat(World& W, Journey& j)
{
    for (auto& s : j.st)
    {
        int b, bp; { vs::Quiet q; b = vs::self(); bp = poolOf(W); }
        auto& P = *W.P[s.pool];
        switch (s.op)
        {
        case 0: co_await P.schedule(); arrived(W, s.pool, "schedule", b, bp); break;
        case 1: co_await P.post(); arrived(W, s.pool, "post", b, bp); break;
        case 2: case 3: co_await P.dispatch(); arrived(W, s.pool, "dispatch", b, bp); break;
        case 4: co_await transfer_to(P); arrived(W, s.pool, "transfer_to", b, bp); break;
        case 5: { inline_scheduler is; co_await transfer_to(is); vs::Quiet q; REQUIRE(vs::self() == b, "transfer_to(inline) moved the coroutine"); } break;
        case 6: case 7: case 8: co_await startAny(W, s); break;
        case 9: co_await s.ev; break;
        case 10: co_await ByHandle{ &P, s.kind }; arrived(W, s.pool, s.kind == 0 ? "schedule" : s.kind == 1 ? "post" : "dispatch", b, bp); break;
        }
        inlineCheck(W, s.pool);
    }
    j.done = true;
}
static task<void> jMac(World& W, Journey& j)
{
    MC_BEGIN(task<void>, &W, &j, i = size_t(0), b = 0, bp = 0, is = inline_scheduler{});
    for (; i < j.st.size(); ++i)
    {
        { vs::Quiet q; b = vs::self(); bp = poolOf(W); }
        if (j.st[i].op == 0) { MC_AWAIT(W.P[j.st[i].pool]->schedule()); arrived(W, j.st[i].pool, "schedule", b, bp); }
        else if (j.st[i].op == 1) { MC_AWAIT(W.P[j.st[i].pool]->post()); arrived(W, j.st[i].pool, "post", b, bp); }
        else if (j.st[i].op < 4) { MC_AWAIT(W.P[j.st[i].pool]->dispatch()); arrived(W, j.st[i].pool, "dispatch", b, bp); }
        else if (j.st[i].op == 4) { MC_AWAIT(transfer_to(*W.P[j.st[i].pool])); arrived(W, j.st[i].pool, "transfer_to", b, bp); }
        else if (j.st[i].op == 5) { MC_AWAIT(transfer_to(is)); vs::Quiet q; REQUIRE(vs::self() == b, "transfer_to(inline) moved the coroutine"); }
        else if (j.st[i].op < 9) MC_AWAIT(startAny(W, j.st[i]));
        else MC_AWAIT(j.st[i].ev);
        inlineCheck(W, j.st[i].pool);
    }
    j.done = true;
    MC_END();
}
static Drv drv(task<void> t, Journey& j) { co_await t; j.fin.release(); }
PBT_SECTION(transfer_schedules, 40000, 1200000)
{
    World W; W.g = &g; int n0 = 1 + (int)g.u(2), n1 = 1 + (int)g.u(2), nj = 1 + (int)g.u(3); int deadOwn = 0;
    std::deque<Journey> J; bool anyEv = false;
    for (int k = 0; k < nj; ++k)
    {
        auto& j = J.emplace_back(); j.kind = (int)g.u(4); int n = 1 + (int)g.u(4);
        for (int i = 0; i < n; ++i)
        {
            auto& s = j.st.emplace_back(); s.op = (int)g.u(11); s.pool = (int)g.u(2); s.kind = 0; s.late = s.pipe = false; s.type = 0;
            if (s.op == 10) { if (j.kind & 1) s.op = 9; else s.kind = (int)g.u(3); }
            if (s.op >= 6 && s.op <= 8)
            {
                s.kind = (int)g.u(nZoo); s.type = (int)g.u(5); s.late = g.chance(1, 3); s.pipe = g.b();
                s.plan.nSusp = (int)g.biased(3, 1, 3); s.plan.throws = g.chance(1, 4); s.plan.ek = (int)g.biased(exk::n, 1, 2); s.plan.value = 2 * (int)g.u(50); s.plan.ev = &s.ev; s.refv = s.plan.value; s.plan.ref = &s.refv;
            }
            g.note("journey %d step %d: %s pool %d%s%s%s", k, i, (const char*[]) { "schedule", "post", "dispatch", "dispatch", "transfer_to", "transfer_to inline", "start_on", "start_on scheduler value", "start_on inline", "resumed by another thread", "handle" }[s.op], s.pool, s.op >= 6 && s.op <= 8 ? ", " : "", s.op >= 6 && s.op <= 8 ? zooNames[s.kind] : "", s.late ? ", awaited later" : "");
        }
    }
    uint64_t sw = 0; LiveCheck lc;
    vs::run(g, [&] {
        std::optional<thread_pool> a(std::in_place), b(std::in_place); W.P[0] = &*a; W.P[1] = &*b;
        auto wa = a->make_work(), wb = b->make_work();
        for (int p = 0; p < 2; ++p) { int t0 = vs::threadCount(); W.P[p]->create_threads(p ? n1 : n0); vs::Quiet q; for (int t = t0; t < vs::threadCount(); ++t) W.mem[p].insert(t); }
        std::vector<std::vs_thread> th, fth;
        for (auto& j : J) th.emplace_back([&W, &j] {
            if (j.kind == 0) sync_wait(jNat(W, j)); else if (j.kind == 1) sync_wait(jMac(W, j)); else if (j.kind == 2) drv(jNat(W, j), j); else drv(jMac(W, j), j);
        });
        for (auto& j : J) { bool any = false; for (auto& s : j.st) any |= s.op == 9 || s.plan.nSusp; if (any) fth.emplace_back([&j] { for (auto& s : j.st) { if (s.op == 9) s.ev.fire(); for (int i = 0; i < s.plan.nSusp; ++i) s.ev.fire(); } }); }
        for (auto& t : th) t.join();
        for (auto& j : J) if (j.kind >= 2) j.fin.wait(); // a detached journey keeps needing both pools until it is over
        for (auto& t : fth) t.join();
        wa.reset(); wb.reset();
        a.reset(); b.reset();
        sw = vs::switches();
    });
    for (auto& j : J) { REQUIRE(j.done, "a coroutine did not finish"); for (auto& s : j.st) if (s.op >= 6 && s.op <= 8) s.out.check(s.plan, "start_on"); }
    lc.done();
    if (W.hops >= 2 && sw > (uint64_t)(n0 + n1 + nj)) g.nontrivial();
    if (W.inl) g.label("inline dispatch"); if (W.starts) g.label("start_on");
}
