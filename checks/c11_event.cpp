#include "common.h"
#include "vsched_on.h"
#include "macoro/manual_reset_event.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;

// ------------------------------------------------------------------ sequential model
struct World
{
    async_manual_reset_event* e; bool set; pbt::Gen* g;
    struct W { int state = 0; /*0 idle 1 waiting 2 released 3 done*/ int resumes = 0, expect = 0; };
    std::vector<W> w; int depth = 0; int reentrant = 0, multi = 0;
    void doSet()
    {
        std::vector<int> rel;
        if (!set) { set = true; for (size_t i = 0; i < w.size(); ++i) if (w[i].state == 1) { w[i].state = 2; ++w[i].expect; rel.push_back((int)i); } }
        if (rel.size() > 1) ++multi;
        g->note("%*sset, releases %zu", depth, "", rel.size());
        std::vector<int> ex; for (int i : rel) ex.push_back(w[i].expect);
        ++depth; e->set(); --depth;
        for (size_t k = 0; k < rel.size(); ++k) REQUIRE(w[rel[k]].resumes >= ex[k], "waiter %d not resumed by set", rel[k]);
    }
    void doReset() { set = false; g->note("%*sreset", depth, ""); e->reset(); }
    void query() { bool r = e->is_set(); REQUIRE(r == set, "is_set() = %d, model %d", r, set); }
    void resumed(int i)
    {
        REQUIRE(w[i].state == 2, "waiter %d resumed in state %d", i, w[i].state);
        ++w[i].resumes; g->note("%*swaiter %d resumed", depth, "", i);
        REQUIRE(w[i].resumes == w[i].expect, "waiter %d resumed %d times, expected %d", i, w[i].resumes, w[i].expect);
    }
    // what a waiter does when it is resumed
    void act(int i)
    {
        if (depth) ++reentrant;
        switch (g->weighted({ 5, 2, 2, 1 }))
        {
        case 1: doReset(); break;
        case 2: if (depth < 6) doSet(); break;
        case 3: doReset(); if (depth < 6) doSet(); break;
        }
    }
    void before(int i) { w[i].state = set ? 2 : 1; if (set) ++w[i].expect; g->note("%*swaiter %d awaits (%s)", depth, "", i, set ? "set" : "not set"); }
};
static Drv wNative(World& W, int i, int n) { while (n--) { W.before(i); co_await *W.e; W.resumed(i); if (n) W.act(i); } W.w[i].state = 3; }
static task<void> wTask(World& W, int i, int n) { while (n--) { W.before(i); co_await *W.e; W.resumed(i); if (n) W.act(i); } W.w[i].state = 3; }
static task<void> wMacro(World& W, int i, int n)
{
    MC_BEGIN(task<void>, &W, i, n);
    while (n--) { W.before(i); MC_AWAIT(*W.e); W.resumed(i); if (n) W.act(i); }
    W.w[i].state = 3;
    MC_END();
}
static Drv drive(task<void> t) { co_await t; }

PBT_SECTION(event_model, 200000, 4000000)
{
    World W; W.g = &g; W.set = g.b();
    async_manual_reset_event e(W.set); W.e = &e;
    W.w.reserve(32);
    int n = 1 + g.size(25);
    for (int i = 0; i < n; ++i)
    {
        switch (g.weighted({ 4, 3, 2, 1 }))
        {
        case 0: if (W.w.size() < 30) { int id = (int)W.w.size(); W.w.push_back({}); int k = 1 + g.size(3); int f = (int)g.u(3);
            if (f == 0) wNative(W, id, k); else if (f == 1) drive(wTask(W, id, k)); else drive(wMacro(W, id, k)); } break;
        case 1: W.doSet(); break;
        case 2: W.doReset(); break;
        case 3: break;
        }
        W.query();
        for (auto& x : W.w) REQUIRE(x.state != 2, "a waiter was released but not resumed");
    }
    for (int k = 0; k < 200; ++k)
    {
        bool all = true; for (auto& x : W.w) all &= x.state == 3;
        if (all) break;
        W.doReset(); W.doSet();
    }
    for (size_t i = 0; i < W.w.size(); ++i) REQUIRE(W.w[i].state == 3, "waiter %zu never finished (state %d)", i, W.w[i].state);
    if (W.multi) g.nontrivial();
    if (W.reentrant) g.label("acts inside set");
}

// ------------------------------------------------------------------ schedules
struct Iv { uint64_t b, e; };
struct AwaitRec { uint64_t begin = 0, parked = 0, resumed = 0; int count = 0; };
struct Hist
{
    async_manual_reset_event* e; bool init; uint64_t clk = 1;
    std::vector<Iv> sets, resets; struct Q { uint64_t b, e; bool r; }; std::vector<Q> qs;
    std::vector<AwaitRec> aw;
    Mark m; bool one = false; // one set in all: who is released by it sees what its thread wrote before
    uint64_t tick() { vs::Quiet q; return clk++; }
};
static Drv cNative(Hist& H, int first, int n)
{
    for (int i = first; i < first + n; ++i)
    {
        { vs::Quiet q; H.aw[i].begin = H.clk++; }
        co_await *H.e;
        if (H.one) H.m.see("await");
        vs::Quiet q; H.aw[i].resumed = H.clk++; ++H.aw[i].count;
    }
}
static task<void> cMacro(Hist& H, int i, int last)
{
    MC_BEGIN(task<void>, &H, i, last);
    for (; i < last; ++i)
    {
        { vs::Quiet q; H.aw[i].begin = H.clk++; }
        MC_AWAIT(*H.e);
        if (H.one) H.m.see("await");
        { vs::Quiet q; H.aw[i].resumed = H.clk++; ++H.aw[i].count; }
    }
    MC_END();
}
static bool couldBeSet(Hist& H, uint64_t a, uint64_t b)
{
    auto notOverridden = [&](uint64_t end) { for (auto& r : H.resets) if (r.b > end && r.e < a) return false; return true; };
    if (H.init && notOverridden(0)) return true;
    for (auto& s : H.sets) if (s.b < b && notOverridden(s.e)) return true;
    return false;
}
static bool couldBeUnset(Hist& H, uint64_t a, uint64_t b)
{
    auto notOverridden = [&](uint64_t end) { for (auto& r : H.sets) if (r.b > end && r.e < a) return false; return true; };
    if (!H.init && notOverridden(0)) return true;
    for (auto& s : H.resets) if (s.b < b && notOverridden(s.e)) return true;
    return false;
}
PBT_SECTION(event_schedules, 80000, 2500000)
{
    Hist H; H.init = g.chance(1, 3);
    async_manual_reset_event e(H.init); H.e = &e;
    int nt = 2 + (int)g.u(3);
    struct Op { int k; int first, n; };
    std::vector<std::vector<Op>> prog(nt); int na = 0;
    for (int t = 0; t < nt; ++t)
    {
        int m = 1 + g.size(4);
        for (int j = 0; j < m; ++j)
        {
            Op o{ g.weighted({4,3,2,1,1}), 0, 0 };
            if (o.k == 0 || o.k == 4) { o.first = na; o.n = 1 + (int)g.biased(3, 1, 3); na += o.n; }
            prog[t].push_back(o);
        }
        std::string d; for (auto& o : prog[t]) d += o.k == 0 ? "await*" + std::to_string(o.n) + " " : o.k == 4 ? "mawait*" + std::to_string(o.n) + " " : o.k == 1 ? "set " : o.k == 2 ? "reset " : "query ";
        g.note("T%d: %s", t + 1, d.c_str());
    }
    H.aw.resize(na);
    int ns = 0; for (auto& p : prog) for (auto& o : p) ns += o.k == 1;
    H.one = !H.init && ns == 1; if (H.one) g.label("one set");
    uint64_t sw = 0;
    vs::run(g, [&] {
        std::vector<std::vs_thread> th;
        for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
            for (auto o : prog[t])
            {
                if (o.k == 0) cNative(H, o.first, o.n);
                else if (o.k == 4) drive(cMacro(H, o.first, o.first + o.n));
                if (o.k == 0 || o.k == 4) { vs::Quiet q; uint64_t c = H.clk++; if (!H.aw[o.first].resumed) H.aw[o.first].parked = c; }
                else if (o.k == 1) { if (H.one) H.m.set(); uint64_t b = H.tick(); e.set(); vs::Quiet q; H.sets.push_back({ b, H.clk++ }); }
                else if (o.k == 2) { uint64_t b = H.tick(); e.reset(); vs::Quiet q; H.resets.push_back({ b, H.clk++ }); }
                else { uint64_t b = H.tick(); bool r = e.is_set(); if (r && H.one) H.m.see("is_set"); vs::Quiet q; H.qs.push_back({ b, H.clk++, r }); }
            }
        });
        for (auto& t : th) t.join();
        for (int k = 0; k < 2; ++k) { uint64_t b = H.tick(); e.set(); vs::Quiet q; H.sets.push_back({ b, H.clk++ }); }
        sw = vs::switches();
    });
    bool waited = false;
    for (int i = 0; i < na; ++i)
    {
        auto& a = H.aw[i];
        REQUIRE(a.count == 1, "await %d completed %d times%s", i, a.count, a.count == 0 ? " (lost: the event is set and nobody resets it)" : "");
        REQUIRE(couldBeSet(H, a.begin, a.resumed), "await %d completed although the event was never set meanwhile", i);
        if (a.parked && a.parked < a.resumed) waited = true;
        if (a.parked) for (auto& s : H.sets) if (s.b > a.parked && s.e < a.resumed)
        {
            uint64_t m = s.e; bool grow = true;
            while (grow) { grow = false; for (auto& x : H.sets) if (x.b < m && x.e > m) { m = x.e; grow = true; } }
            REQUIRE(a.resumed < m, "await %d was waiting before a set began and was not resumed by it", i);
        }
    }
    for (auto& q : H.qs)
        REQUIRE(q.r ? couldBeSet(H, q.b, q.e) : couldBeUnset(H, q.b, q.e), "is_set() returned %d", q.r);
    if (sw > (uint64_t)nt * 2 && na && waited) g.nontrivial();
    if (waited) g.label("suspended wait");
}
