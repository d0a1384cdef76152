#include "common.h"
#include "vsched_on.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "macoro/async_scope.h"
#include "macoro/sync_wait.h"
#include "all_macoro_src.inc"
#include "zoo.h"
#include "vsched_off.h"
using namespace macoro;

struct World;
// one awaitable added to the scope, with its returned handle
struct WorkBase
{
    int id; XEv ev; Plan p; int obj = 0; int kind = 0; Out o; int child = -1;
    enum { None, Held, Dropped, Awaiting } h = None;
    int got = 0; bool reported = false; int fired = 0;
    virtual void add(async_scope& s, pbt::Gen* g) = 0;
    virtual void drop() = 0;
    virtual bool ready() = 0;
    virtual void await(int how) = 0;
    virtual void shuffle(int how) = 0;
    virtual bool held() = 0;
    virtual ~WorkBase() = default;
    bool done() const { return p.ends > 0; }
    bool lost() const { return done() && p.throws && h == Dropped; }
};
template<class T> struct Work : WorkBase
{
    scoped_task<T> t;
    void add(async_scope& s, pbt::Gen*) override { auto a = [&](auto mk) { return s.add(mk()); }; auto r = kind < nZoo ? withZoo<T>(kind, p, a) : kind < nZoo + 3 ? withFailing<T>(kind - nZoo, p, a) : a([&] { return LateMake<T>{ &p }; }); t = std::move(r); { vs::Quiet q; h = Held; REQUIRE(p.starts == 1, "an added awaitable was not started"); } }
    void drop() override { { vs::Quiet q; h = Dropped; } scoped_task<T> x(std::move(t)); }
    void shuffle(int how) override
    {
        if (how == 0) { scoped_task<T> x(std::move(t)); t = std::move(x); }
        else if (how == 1) { auto& r = t; t = std::move(r); }
        else { scoped_task<T> x; x = std::move(t); std::swap(x, t); }
    }
    bool ready() override { return t.is_ready(); }
    bool held() override { return h == Held; }
    static Drv run(scoped_task<T> x, Work* w)
    {
        try
        {
            if constexpr (std::is_void_v<T>) { co_await std::move(x); w->p.seen("the awaited task"); vs::Quiet q; w->o.kind = 1; w->o.v = w->p.value; }
            else { decltype(auto) v = co_await std::move(x); w->p.seen("the awaited task"); vs::Quiet q; w->o.kind = 1; w->o.v = Mk<T>::rd(v); if constexpr (std::is_reference_v<T>) w->o.wrongRef = &v != w->p.ref; }
        }
        catch (...) { w->o.caught(); }
        vs::Quiet q; ++w->got; if (!w->done()) pbt::gen().fail("the task's awaiter was resumed before the work finished");
    }
    template<class U> static task<void> mrun(scoped_task<U> x, Work* w) requires(!std::is_void_v<U>)
    {
        MC_BEGIN(task<void>, x = std::move(x), w);
        MC_AWAIT_FN([&](auto&& v) { vs::Quiet q; w->o.v = Mk<U>::rd(v); }, std::move(x));
        { vs::Quiet q; w->o.kind = 1; }
        MC_END();
    }
    template<class U> static task<void> mrun(scoped_task<U> x, Work* w) requires(std::is_void_v<U>)
    {
        MC_BEGIN(task<void>, x = std::move(x), w);
        MC_AWAIT(std::move(x));
        { vs::Quiet q; w->o.kind = 1; w->o.v = w->p.value; }
        MC_END();
    }
    static Drv drv(task<void> t, Work* w) { try { co_await t; } catch (...) { w->o.caught(); } vs::Quiet q; ++w->got; if (!w->done()) pbt::gen().fail("the task's awaiter was resumed before the work finished"); }
    void await(int how) override { { vs::Quiet q; h = Awaiting; } if constexpr (!std::is_reference_v<T>) if (how) { drv(mrun<T>(std::move(t), this), this); return; } run(std::move(t), this); }
};
static const char* kindName(int k) { return k < nZoo ? zooNames[k] : k < nZoo + 3 ? failNames[k - nZoo] : "awaiter failing when destroyed"; }
static std::unique_ptr<WorkBase> mkWork(pbt::Gen& g, int id)
{
    std::unique_ptr<WorkBase> w;
    switch (g.u(5))
    {
    case 0: w = std::make_unique<Work<int>>(); break;
    case 1: w = std::make_unique<Work<void>>(); break;
    case 2: w = std::make_unique<Work<MVal>>(); break;
    case 3: w = std::make_unique<Work<Val>>(); break;
    default: w = std::make_unique<Work<int&>>(); break;
    }
    w->id = id; w->kind = (int)g.u(nZoo); w->p.ev = &w->ev; w->p.nSusp = (int)g.biased(4, 2, 3); w->p.throws = g.chance(1, 3); w->p.ek = (int)g.biased(exk::n, 1, 2); w->p.value = 2 + id * 1000; w->obj = w->p.value; w->p.ref = &w->obj;
    if (g.chance(1, 6)) { w->kind = nZoo + (int)g.u(4); if (w->kind < nZoo + 3) { w->p.throws = true; w->p.nSusp = 0; } }
    return w;
}

// ------------------------------------------------------------------ one thread, histories
struct World
{
    pbt::Gen& g; async_scope* s = new async_scope; std::vector<std::unique_ptr<WorkBase>> w;
    bool joinPending = false; int joins = 0, joined = 0; std::vector<int> reports; bool scopeGone = false;
    int afterJoin = 0; bool strict = true;
    int pending() { int n = 0; for (auto& x : w) n += !x->done(); return n; }
    void expectReport(const std::vector<std::exception_ptr>& ex)
    {
        std::set<int> want, got;
        std::map<int, int> kind;
        for (auto& x : w) if (x->lost() && !x->reported) { want.insert(x->p.value); kind[x->p.value] = x->p.ek; x->reported = true; }
        for (auto& e : ex) { auto b = exk::seenP(e); REQUIRE(got.insert(b.v).second, "the join reported error %d twice", b.v); if (want.count(b.v)) REQUIRE(b.kind == kind[b.v], "the join reported error %d as an exception of kind %d, thrown was one of kind %d", b.v, b.kind, kind[b.v]); }
        for (int i : want) REQUIRE(got.count(i), "the join did not report error %d of dropped work", i);
        for (int i : got) REQUIRE(want.count(i), "the join reported error %d of work that was not dropped", i);
        if (want.size()) g.label("join reported errors");
    }
    void onJoined(const std::vector<std::exception_ptr>& ex)
    {
        REQUIRE(joinPending, "a join completed twice");
        joinPending = false; ++joined;
        for (auto& x : w) REQUIRE(x->done(), "the join completed before work %d finished", x->id);
        expectReport(ex);
        // what the joiner does next, inline
        if (afterJoin == 1 || afterJoin == 3) for (auto& x : w) if (x->held()) x->drop();
        if (afterJoin == 2) { int k = 0; for (auto& x : w) if (x->held()) x->await(k++ & 1); }
        if (afterJoin == 3) { bool all = true; for (auto& x : w) all &= !x->held(); if (all) { delete s; s = nullptr; scopeGone = true; } }
    }
};
// the error of a join names every reported error that has a message
static void checkWhat(async_scope_exception& e)
{
    const std::exception& b = e; std::string m = b.what(); REQUIRE(m == b.what(), "what() differs when asked again");
    for (auto& p : joinErrors(e)) try { std::rethrow_exception(p); } catch (std::exception& x) { REQUIRE(m.find(x.what()) != std::string::npos, "what() of the join's error does not mention '%s'", x.what()); } catch (...) {}
}
static Drv joiner(World& W, bool viaJoin)
{
    std::vector<std::exception_ptr> ex;
    try { if (viaJoin) co_await W.s->join(); else co_await *W.s; }
    catch (async_scope_exception& e) { if (W.joins & 1) checkWhat(e); ex = joinErrors(e); REQUIRE(ex.size() > 0, "the join threw an empty error"); }
    W.onJoined(ex);
}
static task<void> joinMacro(World& W) { MC_BEGIN(task<void>, &W); MC_AWAIT(*W.s); MC_END(); }
static Drv joinerM(World& W)
{
    std::vector<std::exception_ptr> ex;
    try { co_await joinMacro(W); } catch (async_scope_exception& e) { checkWhat(e); ex = joinErrors(e); }
    W.onJoined(ex);
}
static Drv adder(World& W, WorkBase* w, XEv& ev, int& done) { co_await ev; w->add(*W.s, nullptr); ++done; }

PBT_SECTION(scope_model, 150000, 5000000)
{
    LiveCheck lc;
    {
        World W{ g }; int n = 2 + g.size(24); int maxPend = 0, addPend = 0;
        for (int i = 0; i < n && !W.scopeGone; ++i)
        {
            int op = g.weighted({ 5, 6, 2, 2, 2, 1 });
            auto pickHeld = [&]() -> WorkBase* { std::vector<WorkBase*> v; for (auto& x : W.w) if (x->held()) v.push_back(x.get()); return v.empty() ? nullptr : v[g.u(v.size())]; };
            if (op == 0)
            {
                W.w.push_back(mkWork(g, (int)W.w.size())); auto* x = W.w.back().get();
                g.note("add work %d: %s, %d suspension(s), %s%s", x->id, kindName(x->kind), x->p.nSusp, x->p.throws ? "throws" : "returns", W.joinPending ? " (join pending)" : "");
                if (W.joinPending) ++addPend;
                x->add(*W.s, &g);
                REQUIRE(x->done() == (x->p.nSusp == 0), "work is %s", x->done() ? "done early" : "not done");
                bool wasPending = W.joinPending;
                if (g.chance(1, 3)) { g.note("  its handle is dropped at once"); x->drop(); }
            }
            else if (op == 1)
            {
                std::vector<WorkBase*> v; for (auto& x : W.w) if (!x->done()) v.push_back(x.get());
                if (v.empty()) continue;
                auto* x = v[g.u(v.size())]; bool last = ++x->fired == x->p.nSusp; bool jp = W.joinPending; int pend = W.pending();
                W.afterJoin = (int)g.u(4);
                static const char* AJ[] = { "", "joiner drops the handles", "joiner awaits the handles", "joiner drops the handles and destroys the scope" };
                g.note("step work %d%s%s", x->id, last ? " (finishes)" : "", last && jp && pend == 1 ? (std::string(" -> join completes; ") + AJ[W.afterJoin]).c_str() : "");
                bool aw = x->h == WorkBase::Awaiting;
                x->ev.fire();
                if (last) REQUIRE(x->done(), "work did not finish");
                if (aw) REQUIRE(x->got == (last ? 1 : 0), "the task's awaiter was resumed %d times", x->got);
                if (jp) REQUIRE(W.joinPending == (W.pending() > 0), "%s", W.joinPending ? "the join did not complete with the last work" : "the join completed early");
            }
            else if (op == 2) { auto* x = pickHeld(); if (!x) continue; g.note("drop handle %d (%s)", x->id, x->done() ? "finished" : "running"); x->drop(); }
            else if (op == 3)
            {
                auto* x = pickHeld(); if (!x) continue; int how = (int)g.u(2); g.note("await handle %d (%s)", x->id, x->done() ? "finished" : "running"); x->await(how);
                REQUIRE(x->got == (x->done() ? 1 : 0), "awaiting a %s task resumed its awaiter %d times", x->done() ? "finished" : "running", x->got);
            }
            else if (op == 4)
            {
                if (W.joinPending) continue;
                bool p = W.pending() > 0; W.afterJoin = (int)g.u(3); int how = (int)g.u(3);
                g.note("join with %d pending", W.pending()); W.joinPending = true; ++W.joins; maxPend = std::max(maxPend, W.pending());
                if (how == 2) joinerM(W); else joiner(W, how == 1);
                REQUIRE(W.joinPending == p, "%s", W.joinPending ? "the join waits though nothing is pending" : "the join completed while work was pending");
            }
            else { auto* x = pickHeld(); if (!x) continue; REQUIRE(x->ready() == x->done(), "is_ready is wrong"); x->shuffle((int)g.u(3)); }
        }
        if (!W.scopeGone)
        {
            g.note("finish everything"); W.afterJoin = 0;
            for (auto& x : W.w) while (!x->done()) x->ev.fire();
            REQUIRE(!W.joinPending, "the join did not complete with the last work");
            for (auto& x : W.w) if (x->held()) { if (g.b()) x->drop(); else x->await((int)g.u(2)); }
            W.joinPending = true; joiner(W, true); REQUIRE(!W.joinPending, "the last join did not complete");
            delete W.s;
        }
        for (auto& x : W.w) { REQUIRE(x->p.starts == 1 && x->p.ends == 1, "work %d started %d times, ended %d times", x->id, x->p.starts, x->p.ends); if (x->h == WorkBase::Awaiting) { REQUIRE(x->got == 1, "the awaiter of task %d was resumed %d times", x->id, x->got); x->o.check(x->p, "awaited task"); } }
        if (maxPend > 0 && W.w.size() > 1) g.nontrivial();
        if (addPend) g.label("work added while join pending");
    }
    lc.done();
}

// ------------------------------------------------------------------ several threads
struct Sched
{
    async_scope* s = new async_scope; std::vector<std::unique_ptr<WorkBase>> w; int joined = 0; bool destroyInJoin = false; bool early = false; std::vector<std::exception_ptr> ex; WorkBase* child = nullptr;
    void atJoin() { for (auto& x : w) { bool in; { vs::Quiet q; in = x->h != WorkBase::None; } if (in) x->p.seen("the join"); } vs::Quiet q; ++joined; for (auto& x : w) if (x->h != WorkBase::None && !x->done()) early = true; if (child && !child->done()) early = true; }
};
static Drv joinS(Sched& S)
{
    try { co_await S.s->join(); } catch (async_scope_exception& e) { vs::Quiet q; S.ex = joinErrors(e); }
    S.atJoin();
    if (S.destroyInJoin) { delete S.s; S.s = nullptr; }
}
// work that adds more work to the scope when it finishes
static task<void> parentWork(Sched& S, WorkBase* c, XEv& ev, int& d) { co_await ev; c->add(*S.s, nullptr); vs::Quiet q; ++d; }
PBT_SECTION(scope_schedules, 150000, 5000000)
{
    LiveCheck lc;
    {
        Sched S; int n = 1 + (int)g.u(4), nFire = 1 + (int)g.u(2), nHandle = (int)g.u(3);
        std::vector<std::vector<int>> fire(nFire), hand(nHandle + 1); std::vector<int> act(n), how(n); XEv pev; int pd = 0; bool parent = g.chance(1, 3);
        int susp = 0; bool handlesElsewhere = false;
        for (int i = 0; i < n; ++i)
        {
            S.w.push_back(mkWork(g, i)); auto* x = S.w.back().get(); susp += x->p.nSusp;
            fire[g.u(nFire)].push_back(i); int who = (int)g.u(nHandle + 1); hand[who].push_back(i); act[i] = (int)g.u(4); how[i] = (int)g.u(2); if (who) handlesElsewhere = true;
            static const char* A[] = { "dropped", "awaited", "polled then awaited", "polled then dropped" };
            g.note("work %d: %s, %d suspension(s), %s; handle %s by %s", i, kindName(x->kind), x->p.nSusp, x->p.throws ? "throws" : "returns", A[act[i]], who ? "another thread" : "the main thread");
        }
        std::unique_ptr<WorkBase> child; if (parent) { child = mkWork(g, 50); child->p.throws = false; S.child = child.get(); }
        S.destroyInJoin = g.b() && !handlesElsewhere && !parent;
        bool joinFirst = g.b() && !S.destroyInJoin;
        uint64_t sw = 0;
        vs::run(g, [&] {
            auto handle = [&](int i) {
                auto* x = S.w[i].get();
                if (act[i] >= 2) while (true) { bool r = x->ready(); { vs::Quiet q; if (r && !x->done()) pbt::gen().fail("is_ready before the work finished"); } if (r) { x->p.seen("is_ready"); break; } vs::point("poll"); }
                if (act[i] == 0 || act[i] == 3) x->drop(); else x->await(how[i]);
            };
            for (auto& x : S.w) x->add(*S.s, nullptr);
            std::vector<std::vs_thread> th; 
            if (parent) { auto t = S.s->add(parentWork(S, child.get(), pev, pd)); th.emplace_back([&] { pev.fire(); for (int k = 0; k < child->p.nSusp; ++k) child->ev.fire(); }); }
            for (int t = 0; t < nFire; ++t) th.emplace_back([&, t] { for (int i : fire[t]) for (int k = 0; k < S.w[i]->p.nSusp; ++k) S.w[i]->ev.fire(); });
            if (joinFirst) joinS(S);
            for (int t = 1; t <= nHandle; ++t) if (hand[t].size()) th.emplace_back([&, t] { for (int i : hand[t]) handle(i); });
            for (int i : hand[0]) handle(i);
            if (!joinFirst) joinS(S);
            for (auto& t : th) t.join();
            if (child) child->drop();
            sw = vs::switches();
            REQUIRE(S.joined == 1, "the join completed %d times", S.joined);
            REQUIRE(!S.early, "the join completed before all work finished");
            if (S.s) { vs::NoPreempt np; delete S.s; }
        });
        std::set<int> got; for (auto& e : S.ex) { auto b = exk::seenP(e); REQUIRE(got.insert(b.v).second, "error %d reported twice", b.v); bool ok = false; for (auto& x : S.w) ok |= x->p.value == b.v && x->p.ek == b.kind; REQUIRE(ok, "the join reported an error (kind %d, value %d) no work has thrown", b.kind, b.v); }
        for (auto& x : S.w)
        {
            REQUIRE(x->p.starts == 1 && x->p.ends == 1, "work %d started %d times, ended %d times", x->id, x->p.starts, x->p.ends);
            if (x->h == WorkBase::Awaiting) { REQUIRE(x->got == 1, "the awaiter of task %d was resumed %d times", x->id, x->got); x->o.check(x->p, "awaited task"); }
            REQUIRE(!got.count(x->p.value) || x->lost(), "the join reported an error that was not of dropped work");
            if (S.destroyInJoin || !joinFirst) if (x->lost() && !handlesElsewhere) REQUIRE(got.count(x->p.value), "the join did not report error %d of dropped work", x->p.value);
        }
        if (susp && sw > (uint64_t)(nFire + nHandle) * 2) g.nontrivial();
        if (S.destroyInJoin) g.label("scope destroyed by the joiner"); if (parent) g.label("work adds work");
    }
    lc.done();
}
