#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include <chrono>
#include "macoro/thread_pool.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/start_on.h"
#include "macoro/transfer_to.h"
#include "macoro/when_all.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "macoro/barrier.h"
#include "macoro/manual_reset_event.h"
#include "macoro/channel.h"
#include "macoro/take_until.h"
#include "macoro/timeout.h"
#include "macoro/wrap.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;
// Programs composed of every part of the library, run on the threads of two pools: whatever the schedule, the outcome is
// that of evaluating the same program sequentially, every piece of it runs exactly once and everything is released.

enum Op { HOP, DISPATCH, TRANSFER, LAZY, EAGER, EAGER2, GROUP, RANGE, SCOPE, STARTON, DELAY, WRAP, CHANNEL, MCHANNEL, BARRIER, EVENT, GUARD, WHENSCOPE, BLOCKING, OPS };
static const char* opName[] = { "schedule", "dispatch", "transfer", "lazy child", "eager child", "two eager children", "pack of children", "range of children", "scope", "start_on", "delay", "wrapped child", "channel", "channel with two senders", "barrier", "event", "guarded child", "scoped group", "made eager" };
struct Node;
struct Step { int op = 0, pool = 0, n = 0, flag = 0; bool caught = false; std::vector<std::unique_ptr<Node>> ch; };
struct Node { int id = 0; bool mac = false; int fails = 0; std::vector<Step> st; int starts = 0, expect = 0; bool ends = false; Mark mark0; struct M { Node* n; void set() { n->mark0.set(); } void see(const char* w) { if (n->ends) n->mark0.see(w); } } mark{ this }; };
struct World { thread_pool* P[2]; std::set<int> mem[2]; int nodes = 0; };

// ---- the sequential evaluation
struct Outc { bool fail = false; int v = 0; };
static Outc evalNode(Node& n);
static Outc evalStep(Step& s)
{
    std::vector<Outc> r; for (auto& c : s.ch) r.push_back(evalNode(*c));
    Outc o;
    switch (s.op)
    {
    case HOP: case DISPATCH: case TRANSFER: case DELAY: return { false, 1 };
    case CHANNEL: return { false, s.n * (s.n + 1) / 2 };
    case MCHANNEL: return { false, s.n * (s.n + 1) };
    case SCOPE: // children with an odd index are dropped: their values are lost, their errors come with the join
        for (size_t i = 0; i < r.size(); ++i) if (r[i].fail) o.v -= r[i].v; else if (!(i & 1)) o.v += r[i].v;
        return o;
    case WHENSCOPE: // the values of all, or the errors counted
        for (auto& x : r) if (!x.fail) o.v += x.v; else o.v -= x.v;
        return o;
    default: // the values of all, or the first error in order
        for (auto& x : r) { if (x.fail) { o = { true, x.v }; return o; } o.v += x.v; }
        if (s.op == EVENT || s.op == BARRIER) o.v += 1;
        return o;
    }
}
static Outc evalNode(Node& n)
{
    ++n.expect; int sum = n.id;
    for (auto& s : n.st)
    {
        Outc o = evalStep(s);
        if (o.fail) { if (!s.caught) return o; sum -= o.v; } else sum += o.v;
    }
    n.ends = true; // not stopped by the error of a child
    if (n.fails) return { true, 1000 + n.id };
    return { false, sum };
}

// ---- the program itself
static void on(World& W, int p, const char* what) { vs::Quiet q; REQUIRE(W.mem[p].count(vs::self()), "after %s on pool %d the coroutine runs elsewhere", what, p); }
static task<MVal> run(World& W, Node& n);
static task<int> runStep(World& W, Step& s);
static void begin(Node& n) { vs::Quiet q; ++n.starts; }
static task<MVal> nodeNat(World& W, Node& n)
{
    begin(n); MVal sum(n.id);
    for (auto& s : n.st)
    {
        if (!s.caught) { int v = co_await runStep(W, s); *sum.p += v; }
        else { auto r = co_await wrap(runStep(W, s)); if (r.has_value()) *sum.p += r.value(); else try { r.value(); } catch (Boom& b) { *sum.p -= b.id; } }
    }
    n.mark.set();
    if (n.fails) throw Boom(1000 + n.id);
    co_return sum;
}
static task<MVal> nodeMac(World& W, Node& n)
{
    MC_BEGIN(task<MVal>, &W, &n, i = size_t(0), sum = std::optional<MVal>{}, v = 0, r = result<int>{});
    begin(n); sum.emplace(n.id);
    for (; i < n.st.size(); ++i)
    {
        if (!n.st[i].caught) { MC_AWAIT_SET(v, runStep(W, n.st[i])); *sum->p += v; }
        else { MC_AWAIT_TRY(r, runStep(W, n.st[i])); if (r.has_value()) *sum->p += r.value(); else try { r.value(); } catch (Boom& b) { *sum->p -= b.id; } }
    }
    n.mark.set();
    if (n.fails) throw Boom(1000 + n.id);
    MC_RETURN(std::move(*sum));
    MC_END();
}
static task<MVal> run(World& W, Node& n) { return n.mac ? nodeMac(W, n) : nodeNat(W, n); }
static eager_task<MVal> runEager(World& W, Node& n, int pool) { if (pool >= 0) { co_await W.P[pool]->schedule(); } co_return co_await run(W, n); }
// adds the outcome of each child in order; the first error is kept
struct Sum { int v = 0; std::exception_ptr e; template<class R> void add(Node& n, R&& r) { n.mark.see("its parent"); if (r.has_error()) { if (!e) e = r.error(); } else v += r.value().get(); } int get() { if (e) std::rethrow_exception(e); return v; } };
static int boomId(std::exception_ptr e) { try { std::rethrow_exception(e); } catch (Boom& b) { return b.id; } catch (...) { return -100000; } }
static eager_task<void> produceS(World& W, spsc::channel_sender<MVal> s, int n, int pool, int every)
{
    for (int i = 1; i <= n; ++i) { if (i % every == 0) co_await W.P[pool]->schedule(); auto v = co_await s.push(); v = MVal(i); v.publish(); }
    co_await s.close();
}
static eager_task<void> produceM(World& W, mpsc::channel_sender<MVal> s, int n, int pool, int every)
{
    for (int i = 1; i <= n; ++i) { if (i % every == 0) co_await W.P[pool]->schedule(); auto v = co_await s.push(); v = MVal(i); v.publish(); }
}
static eager_task<MVal> thenDecrement(World& W, Node& n, barrier& b, int pool) { co_await W.P[pool]->schedule(); auto r = co_await wrap(run(W, n)); b.decrement(); co_return std::move(r.value()); }
static eager_task<void> waitFor(async_manual_reset_event& e, World& W, int pool, int& n) { co_await W.P[pool]->schedule(); co_await e; vs::Quiet q; ++n; }
static when_all_scope group(World& W, Step& s, std::vector<int>& out)
{
    std::vector<scoped_task<MVal>> h;
    for (auto& c : s.ch) h.push_back(co_await scoped(runEager(W, *c, s.flag ? s.pool : -1)));
    if (s.flag == 1) co_await W.P[1 - s.pool]->schedule();
    for (size_t i = 0; i < h.size(); ++i)
    {
        try { MVal v = co_await std::move(h[i]); vs::Quiet q; out[i] = v.get(); } catch (Boom& b) { vs::Quiet q; out[i] = -b.id; }
        s.ch[i]->mark.see("its group");
    }
}
static task<int> runStep(World& W, Step& s)
{
    auto& P = *W.P[s.pool];
    switch (s.op)
    {
    case HOP: co_await P.schedule(); on(W, s.pool, "schedule"); co_return 1;
    case DISPATCH: co_await P.dispatch(); on(W, s.pool, "dispatch"); co_return 1;
    case TRANSFER: co_await transfer_to(P); on(W, s.pool, "transfer_to"); co_return 1;
    case DELAY: co_await P.schedule_after(std::chrono::nanoseconds(s.n)); on(W, s.pool, "schedule_after"); co_return 1;
    case LAZY: { auto t = run(W, *s.ch[0]); if (s.flag) co_await P.schedule(); MVal v = co_await std::move(t); s.ch[0]->mark.see("its parent"); co_return v.get(); }
    case EAGER: { auto t = runEager(W, *s.ch[0], s.flag & 1 ? s.pool : -1); if (s.flag & 2) co_await W.P[1 - s.pool]->schedule(); auto& v = co_await t; s.ch[0]->mark.see("its parent"); co_return v.get(); }
    case EAGER2:
    {
        auto a = runEager(W, *s.ch[0], s.pool); auto b = run(W, *s.ch[1]) | start_on(*W.P[1 - s.pool]); Sum u;
        if (s.flag) { auto rb = co_await wrap(std::move(b)); auto ra = co_await wrap(std::move(a)); u.add(*s.ch[0], ra); u.add(*s.ch[1], rb); }
        else { auto ra = co_await wrap(std::move(a)); auto rb = co_await wrap(std::move(b)); u.add(*s.ch[0], ra); u.add(*s.ch[1], rb); }
        co_return u.get();
    }
    case GROUP:
    {
        auto r = co_await when_all_ready(runEager(W, *s.ch[0], s.pool), run(W, *s.ch[1]));
        for (auto& c : s.ch) c->mark.see("its group");
        int x = std::get<0>(r).result().get(); co_return x + std::get<1>(r).result().get();
    }
    case RANGE:
    {
        std::vector<eager_task<MVal>> v; for (auto& c : s.ch) v.push_back(runEager(W, *c, s.flag ? (s.pool + (int)v.size()) & 1 : -1));
        auto r = co_await when_all_ready(std::move(v)); int x = 0;
        for (auto& c : s.ch) c->mark.see("its group");
        for (auto& t : r) x += t.result().get();
        co_return x;
    }
    case SCOPE:
    {
        async_scope sc; int v = 0; std::vector<std::optional<scoped_task<MVal>>> h(s.ch.size());
        for (size_t i = 0; i < s.ch.size(); ++i)
        {
            if (i & 1) { auto t = sc.add(run(W, *s.ch[i]) | start_on(P)); if (s.flag & 1) co_await W.P[1 - s.pool]->schedule(); }
            else h[i].emplace(sc.add(runEager(W, *s.ch[i], (int)i & 2 ? s.pool : 1 - s.pool)));
        }
        for (size_t i = 0; i < s.ch.size(); i += 2) { int b = 0; try { MVal x = co_await std::move(*h[i]); v += x.get(); } catch (Boom& e) { b = e.id; } v -= b; s.ch[i]->mark.see("its parent"); }
        if (s.flag & 2) h.clear();
        std::vector<std::exception_ptr> ex;
        try { co_await sc.join(); } catch (async_scope_exception& e) { ex = joinErrors(e); }
        for (auto& c : s.ch) c->mark.see("the join");
        for (auto& e : ex) v -= boomId(e);
        co_return v;
    }
    case STARTON: { MVal v = co_await start_on(P, run(W, *s.ch[0])); s.ch[0]->mark.see("its parent"); co_return v.get(); }
    case WRAP: { auto r = co_await wrap(run(W, *s.ch[0])); s.ch[0]->mark.see("its parent"); co_return std::move(r.value()).get(); }
    case BLOCKING: { auto h = run(W, *s.ch[0]) | make_eager(); MVal v = co_await std::move(h); s.ch[0]->mark.see("its parent"); co_return v.get(); }
    case CHANNEL:
    {
        auto [snd, rcv] = spsc::make_channel<MVal>(size_t(1) << (s.flag & 1)); auto p = produceS(W, std::move(snd), s.n, s.pool, 1 + (s.flag >> 1)); int v = 0, last = 0; bool end = false;
        while (!end) { try { auto x = co_await rcv.pop(); { vs::Quiet q; REQUIRE((*x).get() == last + 1, "received %d after %d", (*x).get(), last); last = (*x).get(); } v += last; x.publish(); } catch (channel_closed_exception&) { end = true; } if (s.flag & 1 && last == 2) co_await P.dispatch(); }
        co_await std::move(p); co_return v;
    }
    case MCHANNEL:
    {
        auto [snd, rcv] = mpsc::make_channel<MVal>(size_t(1) << (s.flag & 1)); auto c = snd; auto p = produceM(W, std::move(snd), s.n, s.pool, 1 + (s.flag >> 1)); auto p2 = produceM(W, std::move(c), s.n, 1 - s.pool, 1); int v = 0;
        for (int i = 0; i < 2 * s.n; ++i) { auto x = co_await rcv.pop(); v += (*x).get(); x.publish(); }
        co_await std::move(p); co_await std::move(p2); co_return v;
    }
    case BARRIER:
    {
        barrier b(s.ch.size()); std::vector<eager_task<MVal>> t; Sum u;
        for (auto& c : s.ch) t.push_back(thenDecrement(W, *c, b, s.flag ? s.pool : ((int)t.size() & 1)));
        co_await b; for (auto& c : s.ch) c->mark.see("the barrier");
        for (size_t i = 0; i < t.size(); ++i) { auto r = co_await wrap(std::move(t[i])); u.add(*s.ch[i], r); }
        co_return u.get() + 1;
    }
    case EVENT:
    {
        async_manual_reset_event e; int n = 0; auto a = waitFor(e, W, 0, n), b = waitFor(e, W, 1, n); auto r = co_await wrap(runEager(W, *s.ch[0], s.flag ? s.pool : -1));
        { vs::Quiet q; REQUIRE(n == 0, "a waiter was resumed before the event was set"); }
        e.set(); co_await a; co_await b; { vs::Quiet q; REQUIRE(n == 2, "%d of 2 waiters of the event were resumed", n); }
        Sum u; u.add(*s.ch[0], r); co_return u.get() + 1;
    }
    case GUARD: { timeout to(*W.P[1 - s.pool], std::chrono::nanoseconds(s.n)); auto tok = to.get_token(); Sum u; auto r = co_await wrap(take_until(runEager(W, *s.ch[0], s.flag ? s.pool : -1), std::move(to))); { vs::Quiet q; REQUIRE(tok.stop_requested(), "the guard ended and no stop was requested"); } u.add(*s.ch[0], r); co_return u.get(); }
    case WHENSCOPE: { std::vector<int> out(s.ch.size()); co_await group(W, s, out); for (auto& c : s.ch) c->mark.see("the group's end"); int v = 0; for (int x : out) v += x; co_return v; }
    }
    co_return 0;
}
static void make(pbt::Gen& g, World& W, Node& n, int depth, int& left)
{
    static const int kids[] = { 0, 0, 0, 1, 1, 2, 2, 3, 3, 1, 0, 1, 0, 0, 2, 1, 1, 2, 1 };
    n.id = ++W.nodes; n.mac = g.b(); n.fails = g.chance(1, 6);
    int k = (int)g.u(depth == 0 ? 4 : 3) + (depth == 0);
    for (int i = 0; i < k; ++i)
    {
        Step s; s.op = (int)g.u(OPS); s.pool = (int)g.u(2); s.n = (s.op == CHANNEL || s.op == MCHANNEL) ? 1 + (int)g.u(4) : (int)g.u(3) * 50; s.flag = (int)g.u(4); s.caught = g.b();
        int c = kids[s.op]; if (c == 3) c = 1 + (int)g.u(3); if (s.op == GROUP || s.op == EAGER2) c = 2;
        if (c > left || (depth >= 3 && c)) { s.op = (int)g.u(3); c = 0; }
        left -= c;
        g.note("%*snode %d (%s%s): %s pool %d n %d flag %d%s", depth * 2, "", n.id, n.mac ? "macro" : "native", n.fails ? ", fails at its end" : "", opName[s.op], s.pool, s.n, s.flag, s.caught ? " (errors caught)" : "");
        for (int j = 0; j < c; ++j) { s.ch.push_back(std::make_unique<Node>()); make(g, W, *s.ch.back(), depth + 1, left); }
        n.st.push_back(std::move(s));
    }
    if (!k) g.note("%*snode %d (%s%s)", depth * 2, "", n.id, n.mac ? "macro" : "native", n.fails ? ", fails" : "");
}
template<class F> static void each(Node& n, F&& f) { f(n); for (auto& s : n.st) for (auto& c : s.ch) each(*c, f); }
PBT_SECTION(composed_programs, 60000, 2000000)
{
    World W; int roots = 1 + (int)g.biased(2, 0, 2), n0 = 1 + (int)g.u(2), n1 = 1 + (int)g.u(2), left = 12; uint64_t sw = 0; LiveCheck lc;
    g.note("pools of %d and %d thread(s)", n0, n1);
    {
        std::vector<std::unique_ptr<Node>> root; std::vector<Outc> want; std::vector<Outc> got(roots); std::set<int> used;
        for (int i = 0; i < roots; ++i) { root.push_back(std::make_unique<Node>()); make(g, W, *root.back(), 0, left); want.push_back(evalNode(*root.back())); }
        vs::run(g, [&] {
            std::optional<thread_pool> a(std::in_place), b(std::in_place); W.P[0] = &*a; W.P[1] = &*b;
            auto wa = a->make_work(), wb = b->make_work();
            for (int p = 0; p < 2; ++p) { int t0 = vs::threadCount(); W.P[p]->create_threads(p ? n1 : n0); vs::Quiet q; for (int t = t0; t < vs::threadCount(); ++t) W.mem[p].insert(t); }
            std::vector<std::vs_thread> th;
            for (int i = 0; i < roots; ++i) th.emplace_back([&, i] {
                try { MVal v = sync_wait(run(W, *root[i])); root[i]->mark.see("sync_wait"); vs::Quiet q; got[i] = { false, v.get() }; } catch (Boom& b) { vs::Quiet q; got[i] = { true, b.id }; }
            });
            for (auto& t : th) t.join();
            wa.reset(); wb.reset(); a.reset(); b.reset();
            sw = vs::switches();
        });
        for (int i = 0; i < roots; ++i)
        {
            REQUIRE(got[i].fail == want[i].fail && got[i].v == want[i].v, "program %d ended with %s %d, evaluated sequentially with %s %d", i, got[i].fail ? "error" : "value", got[i].v, want[i].fail ? "error" : "value", want[i].v);
            each(*root[i], [&](Node& n) { REQUIRE(n.starts == n.expect, "node %d ran %d times, expected %d", n.id, n.starts, n.expect); for (auto& s : n.st) if (n.starts) used.insert(s.op); });
        }
        for (int o : used) g.label(opName[o]);
        if (W.nodes >= 3 && sw > (uint64_t)(n0 + n1 + roots)) g.nontrivial();
    }
    lc.done();
}
