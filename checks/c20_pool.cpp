#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include "macoro/thread_pool.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/start_on.h"
#include "macoro/transfer_to.h"
#include "macoro/inline_scheduler.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "zoo.h"
#include "vsched_off.h"
using namespace macoro;
using ns = std::chrono::nanoseconds;

// ------------------------------------------------------------------ C20
namespace c20
{
struct Sub { uint64_t pb = 0, pe = 0, run = 0; int runs = 0; int th = -1; bool inl = false; int producer = 0; Mark before, after; };
struct World
{
    pbt::Gen* g; thread_pool* pool = nullptr; uint64_t clk = 1; std::deque<Sub> sub; std::deque<Own> own;
    std::set<int> members; int nested = 0, dispatchIn = 0, budget = 0; Gate gate; bool multi = false;
    std::vector<thread_pool::work> heldWork; // given up by continuations
    std::function<void(int)> act;
    uint64_t tick() { return clk++; }
    bool onPool() { return members.count(vs::self()) > 0; }
    void ran(int id)
    {
        Sub* m; { vs::Quiet q; m = &sub[id]; if (!m->pb) g->fail("submission %d resumed before it was posted", id); }
        m->before.see("submission"); m->after.set();
        vs::Quiet q; Sub& s = sub[id]; ++s.runs; s.run = tick(); s.th = vs::self();
        REQUIRE(s.runs == 1, "submission %d resumed %d times", id, s.runs);
        REQUIRE(s.pb, "submission %d resumed before it was posted", id);
        REQUIRE(onPool(), "submission %d resumed on thread %d, which does not serve the pool", id, vs::self());
    }
    int neu(int producer) { vs::Quiet q; sub.push_back({}); sub.back().producer = producer; own.emplace_back(); return (int)sub.size() - 1; }
    void begin(int id) { Sub* m; { vs::Quiet q; m = &sub[id]; } m->before.set(); vs::Quiet q; m->pb = tick(); }
    void end(int id) { vs::Quiet q; sub[id].pe = tick(); }
};
static Own item(World& W, int id) { W.ran(id); W.act(id); co_return; }
// awaits the pool k times
static Drv hops(World& W, std::vector<int> ids, std::vector<int> how)
{
    for (size_t i = 0; i < ids.size(); ++i)
    {
        W.begin(ids[i]);
        bool in; { vs::Quiet q; in = W.onPool(); if (how[i] == 2 && in) W.sub[ids[i]].inl = true; }
        if (how[i] == 0) co_await W.pool->schedule(); else if (how[i] == 1) co_await W.pool->post(); else co_await W.pool->dispatch();
        W.ran(ids[i]);
    }
    W.act(ids.back());
}
static task<void> hopsM(World& W, std::vector<int> ids, std::vector<int> how)
{
    MC_BEGIN(task<void>, &W, ids, how, i = size_t(0));
    for (; i < ids.size(); ++i)
    {
        W.begin(ids[i]);
        { vs::Quiet q; if (how[i] == 2 && W.onPool()) W.sub[ids[i]].inl = true; }
        if (how[i] == 0) MC_AWAIT(W.pool->schedule()); else if (how[i] == 1) MC_AWAIT(transfer_to(*W.pool)); else MC_AWAIT(W.pool->dispatch());
        W.ran(ids[i]);
    }
    W.act(ids.back());
    MC_END();
}
static Drv driveT(task<void> t) { co_await t; }
static void submit(World& W, int who, int kind, int nh, int h0)
{
    if (kind < 3)
    {
        int id = W.neu(who); coroutine_handle<void> h;
        Own it = item(W, id); h = coroutine_handle<void>(it.h);
        { vs::Quiet q; W.own[id] = std::move(it); }
        W.begin(id);
        if (kind == 0) W.pool->post(h);
        else if (kind == 1) W.pool->schedule(h);
        else
        {
            bool in; { vs::Quiet q; in = W.onPool(); if (in) { W.sub[id].inl = true; ++W.dispatchIn; } }
            auto r = W.pool->dispatch(h);
            if (in) REQUIRE(r == h, "dispatch on the pool's own thread did not hand the coroutine back");
            r.resume();
            if (in) { vs::Quiet q; REQUIRE(W.sub[id].runs == 1, "dispatch on the pool's own thread did not continue inline"); }
        }
        W.end(id);
    }
    else
    {
        std::vector<int> ids, how; { vs::Quiet q; for (int i = 0; i < nh; ++i) { ids.push_back(W.neu(who)); how.push_back((h0 + i * 2) % 3); } }
        int first = ids[0];
        if (kind == 3) hops(W, ids, how); else driveT(hopsM(W, ids, how));
        W.end(first);
    }
}
static void poolCase(pbt::Gen& g, vs::Opts o)
{
    World W; W.g = &g;
    int nth = (int)g.u(4), next = nth ? (int)g.biased(2, 1, 5) : (int)g.u(3); // pool threads, threads calling run()
    int nprod = (int)g.u(4), rounds = 1 + (int)g.biased(2, 1, 4);
    bool split = nth > 1 && g.b(), moved = g.chance(1, 5), assign = g.chance(1, 4), late = g.chance(1, 3), destroy = g.chance(1, 2), twice = g.chance(1, 4), ctor = nth && g.chance(1, 6);
    bool mainRuns = nth == 0 && next == 0, noWork = mainRuns && g.b();
    bool block = nth >= 2 && g.chance(1, 3); W.multi = nth + next > 1;
    struct POp { int kind, nh, h0; };
    std::vector<std::vector<std::vector<POp>>> prog(rounds);
    for (auto& r : prog) { r.resize(nprod + 1); for (auto& p : r) { int n = (int)g.u(4); for (int i = 0; i < n; ++i) p.push_back({ (int)g.u(5), 1 + (int)g.u(3), (int)g.u(3) }); } }
    W.budget = (int)g.u(6); int lateHow = (int)g.u(5);
    std::vector<int> how, akind; for (int i = 0; i < 8; ++i) { how.push_back((int)g.u(6)); akind.push_back((int)g.u(9)); }
    g.note("%d pool thread(s), %d thread(s) in run(), %d producer(s), %d round(s)%s%s%s%s%s", nth, next, nprod, rounds, moved ? ", pool moved" : "", assign ? ", ended by assigning another pool" : destroy ? ", destroyed without join" : "", block ? ", a blocking continuation" : "", noWork ? ", no work object" : "", ctor ? ", made by constructor" : ""); if (late) g.note("the last work object is let go by a continuation (%d)", lateHow);
    int acts = 0; bool sawNested = false;
    W.act = [&](int) {
        int a; { vs::Quiet q; if (W.budget <= 0) return; --W.budget; a = akind[acts++ % 8]; sawNested = true; ++W.nested; }
        switch (a)
        {
        case 0: case 1: submit(W, -1, a, 1, 0); break;
        case 2: submit(W, -1, 2, 1, 0); break;
        case 3: submit(W, -1, 3, 2, 0); break;
        case 4: submit(W, -1, 4, 2, 2); break;
        case 5: { auto w = W.pool->make_work(); submit(W, -1, 0, 1, 0); thread_pool::work w2(std::move(w)); w2.reset(); } break;
        case 6: { bool threw = false; thread_pool other; auto w = other.make_work(); try { other.run(); } catch (std::runtime_error&) { threw = true; } REQUIRE(threw, "run() inside a pool thread did not throw"); } break;
        case 7: submit(W, -1, 3, 3, 2); submit(W, -1, 0, 1, 0); break;
        case 8: break;
        }
    };
    uint64_t sw = 0; int total = 0;
    vs::run(g, [&] {
        std::optional<thread_pool> p0, p1;
        for (int r = 0; r < rounds; ++r)
        {
            bool fresh = !p0 && !p1;
            thread_pool other; std::vector<thread_pool::work> kept(nprod); // moved from, but kept until the pool is done
            thread_pool::work w; int t0 = vs::threadCount();
            W.members.clear();
            if (fresh && ctor) p0.emplace((size_t)nth, w); else if (fresh) p0.emplace();
            thread_pool* pool = p1 ? &*p1 : &*p0;
            bool made = fresh && ctor;
            if (!made && !noWork) w = pool->make_work();
            // threads may only be recognised once they exist: no submission before
            if (!made) { if (split) { pool->create_thread(); pool->create_threads(nth - 1); } else pool->create_threads(nth); }
            int t1 = vs::threadCount(); REQUIRE(t1 - t0 == nth, "%d threads were created instead of %d", t1 - t0, nth);
            { vs::Quiet q; for (int t = t0; t < t1; ++t) W.members.insert(t); }
            if (fresh && moved) { if (assign) { p1.emplace(); *p1 = std::move(*p0); } else p1.emplace(std::move(*p0)); pool = &*p1; }
            W.pool = pool;
            std::vector<std::vs_thread> th, ext; std::vector<thread_pool::work> pw(nprod);
            for (int i = 0; i < next; ++i) { int idx = vs::threadCount(); { vs::Quiet q; W.members.insert(idx); } ext.emplace_back([pool] { pool->run(); }); }
            for (int i = 0; i < nprod && !noWork; ++i) { pw[i] = pool->make_work(); }
            if (block)
            {
                // a continuation that waits for a later one: another thread of the pool has to run that
                W.gate.open = false;
                struct Bl { static Own a(World& W) { W.gate.wait(); co_return; } static Own b(World& W) { W.gate.release(); co_return; } };
                for (int k = 0; k < 2; ++k)
                {
                    Own it = k ? Bl::b(W) : Bl::a(W); auto h = it.h;
                    { vs::Quiet q; W.own.push_back(std::move(it)); W.sub.push_back({}); W.sub.back().inl = true; W.sub.back().runs = 1; }
                    pool->post(coroutine_handle<void>(h));
                }
            }
            if (!noWork) for (int i = 0; i < nprod; ++i) th.emplace_back([&, i, r, wk = std::move(pw[i])]() mutable {
                for (auto& op : prog[r][i]) submit(W, i, op.kind, op.nh, op.h0);
                switch (how[i]) { case 0: wk.reset(); break; case 1: { thread_pool::work x(std::move(wk)); } break; case 2: wk = thread_pool::work(); break; case 3: { auto x = std::make_unique<thread_pool::work>(std::move(wk)); vs::point("w"); x.reset(); } break; case 4: kept[i] = other.make_work(); wk = std::move(kept[i]); wk.reset(); break; default: kept[i] = pool->make_work(); wk = std::move(kept[i]); vs::point("w"); wk.reset(); }
            });
            for (auto& op : prog[r][nprod]) submit(W, nprod, op.kind, op.nh, op.h0);
            // the last work object may be let go by a continuation that a thread without one submits
            if (late && next + nth > 0)
            {
                auto rel = [](World& W, thread_pool::work w) -> Own { { auto x = std::move(w); } co_return; };
                struct Rel { static Drv go(World& W, thread_pool::work w, int how) { auto* p = W.pool; if (how == 0) co_await p->schedule(); else if (how == 1) co_await p->dispatch(); else co_await transfer_to(*p); w.reset(); } };
                th.emplace_back([&W, how = lateHow, lw = std::move(w), pool, rel]() mutable {
                    if (how < 3) Rel::go(W, std::move(lw), how);
                    else
                    {
                        Own it = rel(W, std::move(lw)); auto h = it.h; { vs::Quiet q; W.own.push_back(std::move(it)); W.sub.push_back({}); W.sub.back().inl = true; W.sub.back().runs = 1; }
                        if (how == 3) pool->post(coroutine_handle<void>(h)); else { auto r = pool->dispatch(coroutine_handle<void>(h)); r.resume(); }
                    }
                });
            }
            else w.reset();
            if (mainRuns) { { vs::Quiet q; W.members.insert(vs::self()); } pool->run(); { vs::Quiet q; W.members.erase(vs::self()); } }
            bool last = r + 1 == rounds;
            if (last && assign && next == 0) *pool = thread_pool();
            else if (last && destroy && next == 0) { if (p1) p1.reset(); else p0.reset(); }
            else { pool->join(); if (twice) pool->join(); }
            // every producer let go of its work before the last serving thread could return
            for (auto& t : ext) t.join();
            // what continuations wrote before the pool finished is visible now
            { size_t n; { vs::Quiet q; n = W.sub.size(); } for (size_t i = 0; i < n; ++i) { Sub* m; { vs::Quiet q; m = &W.sub[i]; if (!m->pb || m->runs != 1) m = nullptr; } if (m) m->after.see("pool finished"); } }
            {
                vs::Quiet q; bool served = nth + next > 0 || mainRuns;
                if (served) for (size_t i = 0; i < W.sub.size(); ++i) if (W.sub[i].pb) REQUIRE(W.sub[i].runs == 1, "submission %zu was not resumed before the pool finished", i);
                if (served) for (size_t i = 0; i < W.own.size(); ++i) if (W.own[i].h && !W.own[i].h.done()) g.fail("continuation %zu has not finished when the pool finished", i);
            }
            for (auto& t : th) t.join();
        }
        sw = vs::switches(); total = (int)W.sub.size();
        if (p1 && p0) { p0.reset(); }
    }, o);
    // order: one serving thread resumes in submission order
    if (nth + next + mainRuns == 1) for (auto& a : W.sub) for (auto& b : W.sub) if (!a.inl && !b.inl && a.pe && a.pe < b.pb && a.pb) REQUIRE(a.run < b.run, "one serving thread resumed a later submission first");
    if (total >= 3 && sw > (uint64_t)(nth + next + nprod)) g.nontrivial();
    if (sawNested) g.label("submissions from continuations");
    if (rounds > 1) g.label("pool reused"); if (block) g.label("blocking continuation");
}
}
PBT_SECTION(pool_schedules, 40000, 1200000) { vs::Opts o; c20::poolCase(g, o); }

// ------------------------------------------------------------------ C22
namespace c22
{
struct Op
{
    int64_t delay = 0; int tok = 0; /*0 none 1 own source 2 shared 3 already requested 4 impossible*/ int64_t cancelAfter = -1; bool cancelOnPool = false;
    std::unique_ptr<stop_source> src; int64_t t0 = 0, sched = 0, deadline = 0, end = -1, cancelB = -1, cancelE = -1; int count = 0; int th = -1; int kind = 0; bool blocks = false; int from = 0;
};
struct World { pbt::Gen* g; thread_pool* pool; std::deque<Op> ops; stop_source* shared = nullptr; int64_t sharedB = -1; std::set<int> members; Gate gate; int done = 0; };
static stop_token tokOf(World& W, Op& o) { switch (o.tok) { case 1: case 3: return o.src->get_token(); case 2: return W.shared->get_token(); case 4: { stop_source s; stop_source t(std::move(s)); return s.get_token(); } default: return {}; } }
static void before(Op& o) { vs::Quiet q; o.t0 = vs::nowNs(); o.deadline = o.t0 + o.delay; }
static void after(World& W, Op& o)
{
    {
        vs::Quiet q; o.end = vs::nowNs(); ++o.count; o.th = vs::self(); ++W.done;
        REQUIRE(o.count == 1, "a delayed coroutine was resumed %d times", o.count);
        REQUIRE(W.members.count(o.th), "a delayed coroutine was resumed on thread %d, which is not of the pool", o.th);
        int64_t cb = o.tok == 2 ? W.sharedB : o.tok == 3 ? 0 : o.cancelB;
        if (cb < 0) REQUIRE(o.end >= o.deadline, "resumed %lld ns too early", (long long)(o.deadline - o.end));
        else REQUIRE(o.end >= o.deadline || o.end >= cb, "resumed before its deadline and before its stop was requested");
    }
    if (o.blocks) W.gate.wait();
}
static Drv cNat(World& W, Op& o) { stop_token t = tokOf(W, o); before(o); co_await W.pool->schedule_after(ns(o.delay), std::move(t)); after(W, o); }
static task<void> cTask(World& W, Op& o) { stop_token t = tokOf(W, o); before(o); if (o.tok == 0) co_await W.pool->schedule_after(ns(o.delay)); else co_await W.pool->schedule_after(ns(o.delay), t); after(W, o); }
static task<void> cMac(World& W, Op& o) { MC_BEGIN(task<void>, &W, &o); before(o); MC_AWAIT(W.pool->schedule_after(ns(o.delay), tokOf(W, o))); after(W, o); MC_END(); }
static Drv drv(task<void> t) { co_await t; }
static void start(World& W, Op& o) { if (o.kind == 0) cNat(W, o); else if (o.kind == 1) drv(cTask(W, o)); else drv(cMac(W, o)); vs::Quiet q; o.sched = vs::nowNs(); }
static void cancel(Op& o) { { vs::Quiet q; if (o.cancelB >= 0) return; o.cancelB = vs::nowNs(); } o.src->request_stop(); vs::Quiet q; o.cancelE = vs::nowNs(); }
static Drv cancelOnPool(World& W, Op& o) { co_await W.pool->schedule(); cancel(o); }
static Drv openOnPool(World& W) { co_await W.pool->schedule(); W.gate.release(); }
static void delayCase(pbt::Gen& g, vs::Opts o, bool exact)
{
    World W; W.g = &g; int nth = 1 + (int)g.u(3), nops = 1 + (int)g.u(6), nc = 1 + (int)g.u(2);
    bool keepWork = g.b(), destroy = g.b(), anyCancel = false, blocks = nth >= 2 && g.chance(1, 4), useShared = false;
    int fromPool = (int)g.biased(3, 1, 3);
    static const int64_t D[] = { 0, 1000, 5000, 5000, 1000000, 20000000, 3600000000000ll, -5000 };
    for (int i = 0; i < nops; ++i)
    {
        auto& x = W.ops.emplace_back(); x.delay = D[g.u(8)]; x.tok = (int)g.u(5); x.kind = (int)g.u(3); x.from = fromPool ? (int)g.u(2) : 0;
        if (x.tok == 1) { if (g.chance(3, 4)) { x.cancelAfter = D[g.u(6)]; x.cancelOnPool = g.chance(1, 4); anyCancel = true; } }
        if (x.tok == 2) useShared = true;
        g.note("op %d: delay %lld ns, %s%s", i, (long long)x.delay, (const char*[]) { "no token", "own token", "shared token", "token already requested", "impossible token" }[x.tok], x.cancelAfter >= 0 ? ", cancelled" : "");
    }
    if (blocks) W.ops[0].blocks = true;
    int64_t sharedAt = D[g.u(6)]; bool sharedCancel = useShared && g.b();
    std::vector<int64_t> rest; for (int i = 0; i < 4; ++i) rest.push_back(D[g.u(6)]);
    g.note("%d pool thread(s)%s%s%s%s", nth, keepWork ? ", work held until the operations are started" : "", destroy ? ", pool destroyed" : "", exact ? ", exact time" : "", blocks ? ", one resumed coroutine blocks" : "");
    uint64_t sw = 0; int64_t joined = 0, lastEnd = 0, opened = 0, workDone = 0;
    vs::run(g, [&] {
        stop_source shared; W.shared = &shared;
        std::optional<thread_pool> pool(std::in_place); W.pool = &*pool;
        for (auto& x : W.ops) { if (x.tok == 1 || x.tok == 3) x.src = std::make_unique<stop_source>(); if (x.tok == 3) x.src->request_stop(); }
        auto w = pool->make_work(); int t0 = vs::threadCount();
        pool->create_threads(nth); { vs::Quiet q; for (int t = t0; t < vs::threadCount(); ++t) W.members.insert(t); }
        std::vector<std::vs_thread> th;
        // started by this thread, by another thread, or by a continuation of the pool
        for (int k = 0; k < 1 + (fromPool == 2); ++k) th.emplace_back([&, k, wk = pool->make_work()]() mutable { for (size_t i = 0; i < W.ops.size(); ++i) if (W.ops[i].from == 1 && (fromPool == 1 || (int)(i & 1) == k)) { start(W, W.ops[i]); } wk.reset(); });
        std::vector<std::vs_thread> cth; std::vector<thread_pool::work> cw; for (int c = 0; c < nc; ++c) cw.push_back(pool->make_work());
        if (anyCancel) for (int c = 0; c < nc; ++c) cth.emplace_back([&, c, wk = std::move(cw[c])]() mutable {
            for (size_t i = 0; i < W.ops.size(); ++i) if (W.ops[i].cancelAfter >= 0 && (int)(i % nc) == c)
            {
                auto& x = W.ops[i]; if (x.cancelAfter) std::vs_this_thread::sleep_for(ns(x.cancelAfter));
                if (x.cancelOnPool) cancelOnPool(W, x); else { if (i + 1 == W.ops.size()) { wk.reset(); { vs::Quiet q; workDone = std::max(workDone, vs::nowNs()); } } cancel(x); }
            }
            wk.reset(); vs::Quiet q; workDone = std::max(workDone, vs::nowNs());
        });
        else { cw.clear(); }
        if (sharedCancel) cth.emplace_back([&] { if (sharedAt) std::vs_this_thread::sleep_for(ns(sharedAt)); { vs::Quiet q; W.sharedB = vs::nowNs(); } shared.request_stop(); });
        for (auto& x : W.ops) if (x.from == 0) start(W, x);
        std::optional<thread_pool::work> bw; if (blocks) bw = pool->make_work();
        if (!keepWork) w = {};
        if (blocks) { auto wk = std::move(*bw); std::vs_this_thread::sleep_for(ns(rest[0])); openOnPool(W); { vs::Quiet q; opened = vs::nowNs(); } }
        if (keepWork) { if (rest[1] && rest[2] > 1000) std::vs_this_thread::sleep_for(ns(rest[1])); w.reset(); }
        { vs::Quiet q; workDone = std::max(workDone, vs::nowNs()); }
        if (destroy) pool.reset(); else pool->join();
        { vs::Quiet q; joined = vs::nowNs(); }
        for (auto& t : th) t.join();
        {
            vs::Quiet q;
            for (size_t i = 0; i < W.ops.size(); ++i) { REQUIRE(W.ops[i].count == 1, "delayed coroutine %zu resumed %d times when the pool finished", i, W.ops[i].count); lastEnd = std::max(lastEnd, W.ops[i].end); }
        }
        for (auto& t : cth) t.join();
        sw = vs::switches();
    }, o);
    int resolvedByCancel = 0;
    for (size_t i = 0; i < W.ops.size(); ++i)
    {
        auto& x = W.ops[i]; int64_t exp = std::max(x.t0, x.deadline);
        int64_t c = x.tok == 3 ? x.t0 : x.tok == 2 ? W.sharedB : x.cancelB;
        if (c >= 0) { c = std::max(c, x.t0); if (c < exp) { exp = c; ++resolvedByCancel; } }
        if (exact) REQUIRE(x.end == exp, "operation %zu resumed at %lld, expected %lld (deadline %lld, stop requested at %lld)", i, (long long)x.end, (long long)exp, (long long)x.deadline, (long long)c);
    }
    if (exact) { int64_t e = std::max({ lastEnd, workDone, opened }); REQUIRE(joined == e, "the pool finished at %lld, expected %lld: everything was resolved by then", (long long)joined, (long long)e); }
    if (nth == 1) for (auto& a : W.ops) for (auto& b : W.ops)
    {
        bool ca = a.tok == 3 || (a.tok == 2 && W.sharedB >= 0) || a.cancelB >= 0, cb = b.tok == 3 || (b.tok == 2 && W.sharedB >= 0) || b.cancelB >= 0;
        if (!ca && !cb && a.sched + a.delay < b.deadline && a.sched < b.deadline && a.sched && a.end > b.end) g.fail("resumed against the order of deadlines (%lld before %lld)", (long long)b.deadline, (long long)a.deadline);
    }
    if (W.ops.size() >= 2 && sw > (uint64_t)nth) g.nontrivial();
    if (resolvedByCancel) g.label("resolved by its stop token"); if (anyCancel) g.label("cancellation"); if (blocks) g.label("blocking resumption"); if (fromPool) g.label("started by several threads");
}
}
PBT_SECTION(delay_schedules, 40000, 1200000) { vs::Opts o; o.timeJumps = false; o.spurious = g.b(); c22::delayCase(g, o, true); }
PBT_SECTION(delay_jumps, 30000, 1000000) { vs::Opts o; o.tick = g.b(); c22::delayCase(g, o, false); }
