#include "common.h"
#include "vsched_on.h"
#include "macoro/sequence_barrier.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;

// Positions are unbounded integers; position p of the barrier is the sequence number base+p.
struct WRec { int state = 0; /*0 idle 1 waiting 2 released 3 done*/ int64_t target = 0; int resumes = 0, expect = 0; bool exact = false; int64_t rel = 0; };
template<class S> struct World
{
    sequence_barrier<S>* b; uint64_t base; int64_t last = 0; pbt::Gen* g; std::vector<WRec> w; int depth = 0, multi = 0, kept = 0;
    S seq(int64_t p) { return (S)(base + (uint64_t)p); }
    int64_t pos(S s) { return last + (int64_t)(std::make_signed_t<S>)(S)(s - seq(last)); }
    void publish(int64_t d)
    {
        last += d; std::vector<int> rel; int stay = 0;
        for (size_t i = 0; i < w.size(); ++i) if (w[i].state == 1) { if (w[i].target <= last) { w[i].state = 2; w[i].rel = last; ++w[i].expect; rel.push_back((int)i); } else ++stay; }
        if (rel.size() > 1) ++multi;
        if (rel.size() && stay) ++kept;
        g->note("%*spublish %lld, releases %zu of %zu", depth, "", (long long)last, rel.size(), rel.size() + stay);
        std::vector<int> ex; for (int i : rel) ex.push_back(w[i].expect);
        ++depth; b->publish(seq(last)); --depth;
        for (size_t k = 0; k < rel.size(); ++k) REQUIRE(w[rel[k]].resumes >= ex[k], "waiter %d (target %lld) not resumed by publishing it", rel[k], (long long)w[rel[k]].target);
    }
    void query() { S s = b->last_published(); REQUIRE(s == seq(last), "last_published() is %lld positions off", (long long)(pos(s) - last)); }
    void before(int i, bool stale)
    {
        bool rdy = w[i].target <= last; w[i].state = rdy ? 2 : 1; if (rdy) ++w[i].expect; w[i].exact = !stale; w[i].rel = last;
        g->note("%*swaiter %d awaits %lld (last %lld)%s", depth, "", i, (long long)w[i].target, (long long)last, stale ? " stale operation" : "");
    }
    void resumed(int i, S r)
    {
        g->note("%*swaiter %d resumed with %lld", depth, "", i, (long long)pos(r));
        REQUIRE(w[i].state == 2, "waiter %d (target %lld) resumed when %lld is published (state %d)", i, (long long)w[i].target, (long long)last, w[i].state);
        ++w[i].resumes;
        REQUIRE(w[i].resumes == w[i].expect, "waiter %d resumed %d times, expected %d", i, w[i].resumes, w[i].expect);
        REQUIRE(pos(r) >= w[i].target, "waiter %d told %lld, behind its target %lld", i, (long long)pos(r), (long long)w[i].target);
        REQUIRE(pos(r) <= last, "waiter %d told %lld but only %lld is published", i, (long long)pos(r), (long long)last);
        // a waiter that publishes more when resumed may run before others released with it
        if (w[i].exact) REQUIRE(pos(r) >= w[i].rel, "waiter %d told %lld, last published was %lld", i, (long long)pos(r), (long long)w[i].rel);
    }
    int64_t newTarget() { return last + g->pick<int>({ 1, 2, 1, 3, 0, -1, 5, 12, -20, 30 }); }
    int64_t step() { return g->pick<int>({ 1, 1, 2, 3, 0, 5, 15 }); }
    void act(int i) { if (depth < 5 && g->chance(1, 3)) publish(step()); w[i].target = newTarget(); }
};
template<class S> Drv wNative(World<S>& W, int i, int n) { while (n--) { W.before(i, false); S r = co_await W.b->wait_until_published(W.seq(W.w[i].target)); W.resumed(i, r); if (n) W.act(i); } W.w[i].state = 3; }
// the operation is made, then numbers are published, then it is awaited
template<class S> Drv wStale(World<S>& W, int i, int64_t d)
{
    auto op = W.b->wait_until_published(W.seq(W.w[i].target));
    auto op2 = op;
    W.publish(d);
    W.before(i, true); S r = co_await op2; W.resumed(i, r); W.w[i].state = 3;
}
template<class S> task<void> wTask(World<S>& W, int i, int n) { while (n--) { W.before(i, false); S r = co_await W.b->wait_until_published(W.seq(W.w[i].target)); W.resumed(i, r); if (n) W.act(i); } W.w[i].state = 3; }
template<class S> task<void> wMacro(World<S>& W, int i, int n)
{
    MC_BEGIN(task<void>, &W, i, n, r = S{});
    while (n--) { W.before(i, false); MC_AWAIT_SET(r, W.b->wait_until_published(W.seq(W.w[i].target))); W.resumed(i, r); if (n) W.act(i); }
    W.w[i].state = 3;
    MC_END();
}
static Drv drive(task<void> t) { co_await t; }

template<class S> uint64_t pickBase(pbt::Gen& g)
{
    using U = std::make_unsigned_t<S>;
    uint64_t m = (U)~U(0);
    switch (g.u(5)) { case 0: return m; case 1: return m - g.u(40); case 2: return (m >> 1) - g.u(40); case 3: return g.u(40); default: return g.u(m) ; }
}
template<class S> void model(pbt::Gen& g)
{
    World<S> W; W.g = &g; bool dflt = g.chance(1, 6);
    W.base = dflt ? (uint64_t)sequence_traits<S>::initial_sequence : pickBase<S>(g);
    std::optional<sequence_barrier<S>> bb; if (dflt) bb.emplace(); else bb.emplace((S)W.base);
    W.b = &*bb; W.w.reserve(32);
    g.note("%zu-bit, initial %llu", sizeof(S) * 8, (unsigned long long)(S)W.base);
    W.query();
    int n = 1 + g.size(30);
    for (int i = 0; i < n; ++i)
    {
        switch (g.weighted({ 5, 4, 1 }))
        {
        case 0: if (W.w.size() < 30) { int id = (int)W.w.size(); W.w.push_back({}); W.w[id].target = W.newTarget(); int k = 1 + g.size(3); int f = (int)g.u(3);
            if (f == 0) wNative(W, id, k); else if (f == 1) drive(wTask(W, id, k)); else drive(wMacro(W, id, k)); } break;
        case 1: W.publish(W.step()); break;
        case 2: if (W.w.size() < 30) { int id = (int)W.w.size(); W.w.push_back({}); W.w[id].target = W.newTarget(); wStale(W, id, W.step()); } break;
        }
        W.query();
        for (auto& x : W.w) REQUIRE(x.state != 2, "a waiter's target was published and it was not resumed");
    }
    for (int k = 0; k < 300; ++k)
    {
        bool all = true; for (auto& x : W.w) all &= x.state == 3;
        if (all) break;
        W.publish(5);
    }
    for (size_t i = 0; i < W.w.size(); ++i) REQUIRE(W.w[i].state == 3, "waiter %zu never finished (state %d)", i, W.w[i].state);
    if (W.multi && W.kept) g.nontrivial();
    if (W.last > 0 && (S)(W.base + W.last) < (S)W.base) g.label("wrapped around");
}
PBT_SECTION(barrier_model, 150000, 4000000)
{
    switch (g.u(4)) { case 0: model<uint8_t>(g); break; case 1: model<uint16_t>(g); break; case 2: model<uint32_t>(g); break; default: model<size_t>(g); }
}

// ------------------------------------------------------------------ schedules: one publishing thread, 1-3 waiting threads
struct AwaitRec { int64_t target = 0; uint64_t begin = 0, parked = 0, resumed = 0; int64_t got = -1000; int count = 0; };
struct Iv { uint64_t b, e; int64_t upTo; };
template<class S> struct Hist
{
    sequence_barrier<S>* b; uint64_t base; uint64_t clk = 1; int64_t started = 0; int* data;
    std::vector<AwaitRec> aw; std::vector<Iv> pubs, calls;
    uint64_t tick() { vs::Quiet q; return clk++; }
    S seq(int64_t p) { return (S)(base + (uint64_t)p); }
    int64_t pos(S s) { return (int64_t)(std::make_signed_t<S>)(S)(s - (S)base); }
    void got(int i, S r)
    {
        int64_t p = pos(r);
        { vs::Quiet q; aw[i].resumed = clk++; ++aw[i].count; aw[i].got = p;
          REQUIRE(p >= aw[i].target, "await %d of %lld told %lld", i, (long long)aw[i].target, (long long)p);
          REQUIRE(p <= started, "await %d told %lld but only %lld is published", i, (long long)p, (long long)started); }
        // everything up to the reported number may be read without further synchronisation
        for (int64_t k = 1; k <= p; ++k) if (data[k] != k * 7) { vs::Quiet q; pbt::gen().fail("await %d: data of published %lld not visible", i, (long long)k); }
    }
};
template<class S> Drv cNative(Hist<S>& H, int first, int n)
{
    for (int i = first; i < first + n; ++i)
    {
        int64_t t; { vs::Quiet q; H.aw[i].begin = H.clk++; t = H.aw[i].target; }
        S r = co_await H.b->wait_until_published(H.seq(t));
        H.got(i, r);
    }
}
template<class S> task<void> cMacro(Hist<S>& H, int i, int last)
{
    MC_BEGIN(task<void>, &H, i, last, r = S{}, t = (int64_t)0);
    for (; i < last; ++i)
    {
        { vs::Quiet q; H.aw[i].begin = H.clk++; t = H.aw[i].target; }
        MC_AWAIT_SET(r, H.b->wait_until_published(H.seq(t)));
        H.got(i, r);
    }
    MC_END();
}
template<class S> void sched(pbt::Gen& g)
{
    Hist<S> H; H.base = pickBase<S>(g);
    sequence_barrier<S> bar((S)H.base); H.b = &bar;
    int nc = 1 + (int)g.u(3), np = 1 + g.size(4);
    std::vector<int> steps; int64_t fin = 0;
    for (int i = 0; i < np; ++i) { int d = g.pick<int>({ 1, 1, 2, 3, 6 }); steps.push_back(d); fin += d; }
    int64_t maxT = fin; int na = 0;
    struct Op { int first, n; bool mac; };
    std::vector<std::vector<Op>> prog(nc);
    for (int t = 0; t < nc; ++t)
    {
        int m = 1 + g.size(2);
        for (int j = 0; j < m; ++j)
        {
            Op o{ na, 1 + (int)g.biased(3, 1, 3), g.chance(1, 3) }; na += o.n; prog[t].push_back(o);
            for (int k = 0; k < o.n; ++k) { int64_t x = g.in(0, fin + 1); maxT = std::max(maxT, x); H.aw.push_back({}); H.aw.back().target = x; }
            std::string d; for (int k = 0; k < o.n; ++k) d += std::to_string(H.aw[o.first + k].target) + " ";
            g.note("T%d awaits: %s", t + 2, d.c_str());
        }
    }
    { std::string d; for (int s : steps) d += "+" + std::to_string(s) + " "; g.note("T1 publishes: %s (initial %llu, %zu bits)", d.c_str(), (unsigned long long)(S)H.base, sizeof(S) * 8); }
    std::vector<int> data(maxT + 1, 0); H.data = data.data();
    uint64_t sw = 0;
    vs::run(g, [&] {
        std::vector<std::vs_thread> th;
        int64_t cur = 0;
        auto pub = [&](int64_t to) {
            for (int64_t k = cur + 1; k <= to; ++k) data[k] = (int)k * 7;
            cur = to;
            uint64_t b; { vs::Quiet q; b = H.clk++; H.started = to; }
            bar.publish(H.seq(to));
            { vs::Quiet q; H.pubs.push_back({ b, H.clk++, to }); }
        };
        th.emplace_back([&] { for (int d : steps) pub(cur + d); });
        for (int t = 0; t < nc; ++t) th.emplace_back([&, t] {
            for (auto o : prog[t])
            {
                uint64_t b = H.tick();
                if (!o.mac) cNative(H, o.first, o.n); else drive(cMacro(H, o.first, o.first + o.n));
                { vs::Quiet q; uint64_t c = H.clk++; H.calls.push_back({ b, c, 0 }); if (!H.aw[o.first].resumed) H.aw[o.first].parked = c; }
            }
        });
        for (auto& t : th) t.join();
        { vs::Quiet q; for (auto& p : prog) for (auto& o : p) for (int k = 0; k < o.n; ++k) if (H.aw[o.first + k].target <= fin) { auto& a = H.aw[o.first + k]; if (!a.count) pbt::gen().fail("await %d of %lld still waiting although %lld is published", o.first + k, (long long)a.target, (long long)fin); } else break; }
        pub(maxT);
        pub(maxT); // a waiter that goes on to wait again is served within the same publish or at once
        sw = vs::switches();
    });
    bool waited = false;
    for (int i = 0; i < na; ++i)
    {
        auto& a = H.aw[i];
        REQUIRE(a.count == 1, "await %d of %lld completed %d times", i, (long long)a.target, a.count);
        if (a.parked && a.parked < a.resumed)
        {
            waited = true;
            for (auto& s : H.pubs) if (s.b > a.parked && s.upTo >= a.target && s.e < a.resumed)
            {
                uint64_t m = s.e; bool grow = true;
                while (grow) { grow = false; for (auto* v : { &H.pubs, &H.calls }) for (auto& x : *v) if (x.b < m && x.e > m) { m = x.e; grow = true; } }
                REQUIRE(a.resumed < m, "await %d of %lld was waiting before %lld was published and was not resumed by that", i, (long long)a.target, (long long)s.upTo);
            }
        }
    }
    if (sw > (uint64_t)(nc + 1) * 2 && waited) g.nontrivial();
    if (waited) g.label("suspended wait");
}
PBT_SECTION(barrier_schedules, 80000, 2500000)
{
    switch (g.u(3)) { case 0: sched<uint8_t>(g); break; case 1: sched<uint32_t>(g); break; default: sched<size_t>(g); }
}
