#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include "macoro/stop.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;
#ifdef MACORO_HAS_STD_STOP_TOKEN
// the library's operator co_await is not found by argument-dependent lookup for std::stop_token in macro coroutines
#define AWAITABLE(t) stop_awaiter(t)
#else
#define AWAITABLE(t) (t)
#endif

// ------------------------------------------------------------------ sequential model
struct WRec { int st = -1; int state = 0; /*0 idle 1 waiting 2 due 3 resumed/done 4 destroyed*/ int resumes = 0, expect = 0; };
struct StRec { int src = 1; bool req = false; };
struct World
{
    pbt::Gen* g; std::vector<StRec> st; std::vector<std::optional<stop_source>> S; std::vector<stop_token> T;
    std::vector<WRec> w; std::vector<Own> own; std::vector<std::unique_ptr<task<void>>> tk; int depth = 0, acts = 0, torn = 0, never = 0, multi = 0;
    stop_token tok(int s) { return s < 0 ? stop_token() : T[s]; }
    bool possible(int s) { return s >= 0 && (st[s].req || st[s].src); }
    void before(int i)
    {
        int s = w[i].st; bool now = s < 0 || st[s].req || !possible(s);
        w[i].state = now ? 2 : 1; if (now) ++w[i].expect; if (!possible(s)) ++never;
        g->note("%*swaiter %d awaits state %d (%s)", depth, "", i, s, now ? (s >= 0 && st[s].req ? "requested" : "can never stop") : "waits");
    }
    void resumed(int i)
    {
        g->note("%*swaiter %d resumed", depth, "", i);
        REQUIRE(w[i].state == 2, "waiter %d resumed in state %d", i, w[i].state);
        ++w[i].resumes; w[i].state = 0;
        REQUIRE(w[i].resumes == w[i].expect, "waiter %d resumed %d times, expected %d", i, w[i].resumes, w[i].expect);
    }
    // a resumed waiter may tear down others and move on to another state
    void act(int i, bool more)
    {
        if (depth && depth < 5) switch (g->weighted({ 4, 2, 1, 1 })) { case 1: ++acts; tearDown(i); break; case 2: ++acts; request((int)g->u(st.size())); break; case 3: ++acts; start(); break; }
        if (more) w[i].st = (int)g->u(st.size() + 1) - 1;
    }
    void request(int s)
    {
        if (!S[s]) return; int n = 0;
        g->note("%*srequest on state %d", depth, "", s);
        std::vector<std::pair<int, int>> due;
        if (!st[s].req) { st[s].req = true; for (size_t i = 0; i < w.size(); ++i) if (w[i].st == s && w[i].state == 1) { w[i].state = 2; ++w[i].expect; due.push_back({ (int)i, w[i].expect }); ++n; } }
        if (n > 1) ++multi;
        ++depth; { stop_source c(*S[s]); c.request_stop(); } --depth;
        for (auto [i, e] : due) if (w[i].state != 4) REQUIRE(w[i].resumes >= e, "waiter %d not resumed by the stop request", i);
    }
    void tearDown(int self)
    {
        std::vector<int> a; for (size_t i = 0; i < w.size(); ++i) if ((int)i != self && (w[i].state == 1 || (w[i].state == 2 && depth)) && own[i].h) a.push_back((int)i);
        if (a.empty()) return; int i = a[g->u(a.size())];
        // only one that is really suspended (a frame on this call stack cannot be destroyed)
        if (!parked(i)) return;
        ++torn; g->note("%*stear down waiter %d", depth, "", i); w[i].state = 4; own[i].reset();
    }
    std::vector<char> inAwait;
    bool parked(int i) { return inAwait[i]; }
    void start();
};
struct InAwait { World* W; int i; InAwait(World* w, int k) : W(w), i(k) { W->inAwait[i] = 1; } };
static Own oNative(World& W, int i, int n, bool member)
{
    while (n--)
    {
        W.before(i); W.inAwait[i] = W.w[i].state == 1;
        if (member) { stop_awaiter a(W.tok(W.w[i].st)); co_await a; }
        else co_await W.tok(W.w[i].st);
        W.inAwait[i] = 0;
        W.resumed(i); W.act(i, n);
    }
    W.w[i].state = 3;
}
static task<void> tNative(World& W, int i, int n)
{
    while (n--) { W.before(i); W.inAwait[i] = W.w[i].state == 1; co_await W.tok(W.w[i].st); W.inAwait[i] = 0; W.resumed(i); W.act(i, n); }
    W.w[i].state = 3;
}
static task<void> tMacro(World& W, int i, int n)
{
    MC_BEGIN(task<void>, &W, i, n);
    while (n--) { W.before(i); W.inAwait[i] = W.w[i].state == 1; MC_AWAIT(AWAITABLE(W.tok(W.w[i].st))); W.inAwait[i] = 0; W.resumed(i); W.act(i, n); }
    W.w[i].state = 3;
    MC_END();
}
static eager_task<void> eMacro(World& W, int i, int n)
{
    MC_BEGIN(eager_task<void>, &W, i, n);
    while (n--) { W.before(i); W.inAwait[i] = W.w[i].state == 1; MC_AWAIT(AWAITABLE(W.tok(W.w[i].st))); W.inAwait[i] = 0; W.resumed(i); W.act(i, n); }
    W.w[i].state = 3;
    MC_END();
}
static Own drive(task<void> t) { co_await t; }
static Own driveE(eager_task<void> t) { co_await t; }
void World::start()
{
    if (w.size() >= 24) return;
    int i = (int)w.size(); w.push_back({}); inAwait.push_back(0); own.emplace_back();
    w[i].st = (int)g->u(st.size() + 1) - 1; int n = 1 + (int)g->u(3);
    int k = (int)g->u(5);
    Own o = k == 0 ? oNative(*this, i, n, false) : k == 1 ? oNative(*this, i, n, true) : k == 2 ? drive(tNative(*this, i, n)) : k == 3 ? drive(tMacro(*this, i, n)) : Own();
    if (k == 4) { o = driveE(eMacro(*this, i, n)); }
    auto h = o.h; own[i] = std::move(o); h.resume();
}
PBT_SECTION(stop_await_model, 100000, 2000000)
{
    World W; W.g = &g; W.w.reserve(32); W.own.reserve(32); W.inAwait.reserve(32);
    int ns = 1 + (int)g.u(3);
    for (int i = 0; i < ns; ++i) { W.S.emplace_back(std::in_place); W.st.push_back({}); W.T.push_back(W.S[i]->get_token()); }
    int n = 2 + (int)g.u(20);
    for (int i = 0; i < n; ++i)
    {
        switch (g.weighted({ 6, 2, 2, 1 }))
        {
        case 0: W.start(); break;
        case 1: W.request((int)g.u(ns)); break;
        case 2: W.tearDown(-1); break;
        case 3: { int s = (int)g.u(ns); if (W.S[s]) { g.note("source of state %d dropped", s); W.S[s].reset(); W.st[s].src = 0; } } break;
        }
        for (size_t k = 0; k < W.w.size(); ++k) REQUIRE(W.w[k].state != 2, "waiter %zu was due but not resumed", k);
    }
    int waits = 0; for (auto& x : W.w) waits += x.resumes > 0;
    if (waits && (W.multi || W.torn)) g.nontrivial();
    if (W.multi) g.label("one request resumed several"); if (W.torn) g.label("torn down before the request"); if (W.acts) g.label("acts when resumed"); if (W.never) g.label("token that can never stop");
    for (auto& x : W.w) if (x.state == 1) x.state = 4;
    for (size_t k = 0; k < W.own.size(); ++k) W.own[k].reset();
    for (size_t s = 0; s < W.S.size(); ++s) if (W.S[s] && g.b()) { W.S[s]->request_stop(); }
}

// ------------------------------------------------------------------ schedules
struct Sx { Mark* m = nullptr; int resumes = 0, ready = 0; int data = 0; bool reqBegun = false; uint64_t waits = 0; };
// the driver frame, holding the awaiter, is destroyed as soon as the coroutine ends
static Drv sNative(Sx& x, stop_token t, int n) { while (n--) { co_await stop_token(t); { vs::Quiet q; REQUIRE(x.reqBegun, "resumed before any stop request"); ++x.resumes; } if (x.m) x.m->see("await"); x.data += 1; } }
static task<void> sTask(Sx& x, stop_token t, int n) { while (n--) { co_await stop_token(t); { vs::Quiet q; REQUIRE(x.reqBegun, "resumed before any stop request"); ++x.resumes; } if (x.m) x.m->see("await"); x.data += 1; } }
static task<void> sMacro(Sx& x, stop_token t, int n)
{
    MC_BEGIN(task<void>, &x, t, n);
    while (n--) { MC_AWAIT(AWAITABLE(stop_token(t))); { vs::Quiet q; REQUIRE(x.reqBegun, "resumed before any stop request"); ++x.resumes; } if (x.m) x.m->see("await"); x.data += 1; }
    MC_END();
}
static Drv sDrive(task<void> t) { co_await t; }
PBT_SECTION(stop_await_schedules, 60000, 1500000)
{
    int nw = 1 + (int)g.u(3), nr = 1 + (int)g.u(2), reps = 1 + (int)g.u(2); std::vector<int> kind, split; for (int i = 0; i < nw; ++i) kind.push_back((int)g.u(3));
    bool drop = g.b(), cbs = g.chance(1, 3); vs::cpus = g.chance(1, 3) ? 1 : 4;
    std::vector<std::unique_ptr<Sx>> xs; for (int i = 0; i < nw; ++i) xs.push_back(std::make_unique<Sx>());
    g.note("%d waiter(s) awaiting %d time(s), %d requesting thread(s)", nw, reps, nr);
    Mark m; if (nr == 1) for (auto& x : xs) x->m = &m;
    uint64_t sw = 0;
    vs::run(g, [&] {
        auto src = std::make_unique<stop_source>();
        std::vector<std::vs_thread> th;
        for (int i = 0; i < nw; ++i) th.emplace_back([&, i, tok = src->get_token()]() mutable {
            auto& x = *xs[i];
            if (cbs) { stop_callback k(tok, [] {}); vs::point("k"); }
            if (kind[i] == 0) sNative(x, std::move(tok), reps); else if (kind[i] == 1) sDrive(sTask(x, std::move(tok), reps)); else sDrive(sMacro(x, std::move(tok), reps));
        });
        for (int i = 0; i < nr; ++i) th.emplace_back([&, s = *src]() mutable { { vs::Quiet q; for (auto& x : xs) x->reqBegun = true; } if (nr == 1) m.set(); s.request_stop(); stop_source y(std::move(s)); });
        if (drop) src.reset();
        for (auto& t : th) t.join();
        sw = vs::switches();
        for (int i = 0; i < nw; ++i) REQUIRE(xs[i]->resumes == reps && xs[i]->data == reps, "waiter %d resumed %d times, expected %d", i, xs[i]->resumes, reps);
    });
    if (sw > (uint64_t)(nw + nr)) g.nontrivial();
}
