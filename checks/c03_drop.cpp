#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include <deque>
#include "macoro/task.h"
#include "macoro/wrap.h"
#include "macoro/result.h"
#include "macoro/when_all.h"
#include "macoro/sync_wait.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;
// C03: free-form programs that create, move, assign, await, convert, group and drop work at any point,
// with failing allocations and throwing arguments; whatever happens, everything is released exactly once.

// ---------------------------------------------------------------- failing allocations
static long failIn = -1; static long failed = 0;
void* operator new(size_t n) { if (failIn >= 0 && failIn-- == 0) { ++failed; throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
// whether collecting a blocking handle would return at once (not part of the interface: without it such a collect is left out)
template<class B> bool hasEnded(B& b) { if constexpr (requires { (bool)b.m_handle.done(); (bool)b.m_handle; }) return b.m_handle && b.m_handle.done(); else return false; }
struct Arm { explicit Arm(long k) { failIn = k; } ~Arm() { failIn = -1; } };

static pbt::Gen* G; static int g_born, g_died, g_running, g_jobs; static long g_parks, g_drops;
struct Park;
static std::vector<Park*>* parkedList;
struct Park
{
    long arm; std::function<void()> k; bool listed = false; std::unique_ptr<Val> own;
    explicit Park(long a) : arm(a), own(new Val(7)) { failIn = a; }
    Park(const Park&) = delete;
    void unlist() { if (!listed) return; listed = false; auto& l = *parkedList; for (size_t i = 0; i < l.size(); ++i) if (l[i] == this) { l.erase(l.begin() + i); return; } G->fail("a suspended awaiter was resumed or destroyed twice"); }
    ~Park() { failIn = -1; unlist(); }
    bool await_ready() { failIn = -1; return false; }
    template<class H> void await_suspend(H h) { ++g_parks; listed = true; k = [h] { h.resume(); }; parkedList->push_back(this); }
    void await_resume() { REQUIRE(own && own->get() == 7, "the awaiter was damaged"); }
};
static void resumeOne(size_t i) { Park* p = (*parkedList)[i]; p->unlist(); auto k = std::move(p->k); k(); }

// an argument whose copy or move may throw
static int g_bomb;
struct Arg
{
    Val v;
    explicit Arg(int x) : v(x) {}
    static void tick() { if (g_bomb > 0 && --g_bomb == 0) throw Boom(77); }
    Arg(const Arg& o) : v((tick(), o.v)) {}
    Arg(Arg&& o) : v((tick(), std::move(o.v))) {}
};
// a value converted to the result by a conversion that may throw
struct Conv { int v; bool boom; operator Val() const { if (boom) throw Boom(v); return Val(v); } };
struct Job { bool ended = false, started = false; int depth = 0, ret = 0, retForm = 0; bool mac = false; };
static std::deque<Job>* jobs;
struct BFrame { BFrame() { ++g_born; } ~BFrame() { ++g_died; } BFrame(const BFrame&) = delete; };
struct FrameM { bool on = true; FrameM() { ++g_born; } FrameM(FrameM&& o) noexcept : on(std::exchange(o.on, false)) {} ~FrameM() { if (on) ++g_died; } };

enum Op { PARK, AW_LAZY_L, AW_LAZY_R, AW_LAZY_MOVED, TRY_LAZY_R, AW_READY, AW_FRESH, TRY_FRESH, AW_FRESH_EAGER, AW_EAGER_L, AW_EAGER_R, TRY_EAGER_R, AW_GROUP_L, AW_GROUP_R, AW_PACK_L, AW_PACK_R, AW_FROM_VECTOR, AW_WRAPPED, THROW, STOP,
    MAKE, ASSIGN, DROP, SELF, TO_TASK, TO_EAGER, GROUP, PACK, BLOCK, GET, VECTOR, DISCARD, SWAP, NONE, OPS };
static const char* opName[] = { "suspend", "await lazy lvalue", "await lazy rvalue", "await moved lazy", "try-await lazy", "await readiness", "await fresh", "try-await fresh", "await fresh eager", "await eager lvalue", "await eager rvalue", "try-await eager", "await group lvalue", "await group rvalue", "await pack lvalue", "await pack rvalue", "await element", "await wrapped", "throw", "return",
    "make", "assign", "drop", "self-move", "make_task", "make_eager", "group", "pack", "make_blocking", "collect blocking", "vector", "discard", "swap", "none" };
using WA = decltype(when_all_ready(std::declval<std::vector<task<Val>>>()));
using WP = decltype(when_all_ready(std::declval<task<Val>>(), std::declval<eager_task<Val>>()));
using BT = decltype(make_blocking(std::declval<eager_task<Val>>()));
using BL = decltype(make_blocking(std::declval<task<Val>>()));
struct Slots
{
    task<Val> lt[3]; eager_task<Val> et[3]; std::optional<WA> wa[2]; std::optional<WP> wp; std::optional<BT> bt[2]; std::optional<BL> bl; std::vector<task<Val>> vt;
    std::optional<BT> spareBt; bool waUsed[2] = {}, wpUsed = false; int fuel = 0, depth = 0; int op = 0, a = 0; long k = -1; long sum = 0;
    Slots(Job* j) : fuel((int)G->size(j->depth == 0 ? 40 : 7)), depth(j->depth) {}
    Slots(Slots&&) = default;
};
template<bool lazy> static task<Val, lazy> mk(Slots& s, long arm);
static Job* newJob(int depth) { jobs->emplace_back(); Job* j = &jobs->back(); j->depth = depth; j->ret = (int)G->u(1000); j->retForm = G->weighted({ 4, 1, 4, 4, 1, 8 }); j->mac = G->b(); ++g_jobs; return j; }
static void begin(Slots& s, Job* j, const Arg& a) { failIn = -1; g_bomb = 0; REQUIRE(!j->started, "a body ran twice"); j->started = true; REQUIRE(a.v.get() == j->ret, "an argument was damaged: %d, expected %d", a.v.get(), j->ret); ++g_running; }

static void act(Slots& s)
{
    pbt::Gen& g = *G;
    int op = g.weighted({ 8, 3, 3, 2, 3, 2, 4, 3, 3, 3, 3, 2, 3, 3, 2, 2, 2, 3, 1, 1,
        12, 4, 5, 1, 2, 3, 4, 3, 3, 2, 3, 2, 1, 1 });
    int a = (int)g.u(3), b = (int)g.u(3); long k = g.chance(1, 6) ? (long)g.u(5) : -1;
    // what the slots cannot do is skipped
    switch (op)
    {
    case AW_READY: if (!s.lt[a].handle()) op = NONE; break;
    case AW_LAZY_L: case AW_LAZY_R: case AW_LAZY_MOVED: case TRY_LAZY_R: case AW_WRAPPED: if (!s.lt[a].handle() && !g.chance(1, 10)) op = NONE; break;
    case AW_EAGER_L: case AW_EAGER_R: case TRY_EAGER_R: if (!s.et[a].handle() && !g.chance(1, 10)) op = NONE; break;
    case AW_GROUP_L: case AW_GROUP_R: a %= 2; if (!s.wa[a] || s.waUsed[a]) op = NONE; else s.waUsed[a] = op == AW_GROUP_R; break;
    case AW_PACK_L: case AW_PACK_R: if (!s.wp || s.wpUsed) op = NONE; else s.wpUsed = op == AW_PACK_R; break;
    case AW_FROM_VECTOR: if (s.vt.empty()) op = NONE; else a = (int)g.u(s.vt.size()); break;
    case MAKE: case PACK: case GROUP: case BLOCK: case TO_EAGER: case TO_TASK: break;
    case THROW: case STOP: if (!g.chance(1, 4)) op = NONE; break;
    default: break;
    }
    s.op = op; s.a = a; s.k = k;
    if (op == NONE) return;
    g.note("%*s%s %d %d%s", s.depth * 3, "", opName[op], a, b, k >= 0 ? " (an allocation may fail)" : ""); g.count(opName[op]);
    try
    {
        switch (op)
        {
        case MAKE: if (g.b()) s.lt[a] = mk<true>(s, k); else s.et[a] = mk<false>(s, k); break;
        case ASSIGN: if (g.b()) s.lt[a] = std::move(s.lt[b]); else s.et[a] = std::move(s.et[b]); break;
        case DROP:
            ++g_drops;
            switch (g.u(7)) { case 0: s.lt[a] = {}; break; case 1: s.et[a] = {}; break; case 2: s.wa[a % 2].reset(); break; case 3: s.wp.reset(); break; case 4: s.bt[a % 2].reset(); break; case 5: s.bl.reset(); break; default: s.vt.clear(); }
            break;
        case SELF: { auto& l = s.lt[a]; auto& l2 = l; l = std::move(l2); auto& e = s.et[a]; auto& e2 = e; e = std::move(e2); if (s.bt[a % 2]) { auto& x = *s.bt[a % 2]; auto& y = x; x = std::move(y); } break; }
        case TO_TASK: if (s.lt[b].handle()) { Arm r(k); s.lt[a] = make_task(std::move(s.lt[b])); } break;
        case TO_EAGER: if (g.b()) { if (s.lt[b].handle()) { task<Val> t = std::move(s.lt[b]); Arm r(k); s.et[a] = make_eager(std::move(t)); } } else if (s.et[b].handle()) { Arm r(k); s.et[a] = make_eager(std::move(s.et[b])); } break;
        case GROUP: { std::vector<task<Val>> v; int n = (int)g.u(4); for (int i = 0; i < n; ++i) { v.push_back(i == 0 && s.lt[b].handle() && !s.lt[b].is_ready() ? std::move(s.lt[b]) : mk<true>(s, -1)); } Arm r(k); s.wa[a % 2].reset(); s.waUsed[a % 2] = false; s.wa[a % 2].emplace(when_all_ready(std::move(v))); break; }
        case PACK: { auto l = mk<true>(s, -1); auto e = mk<false>(s, -1); Arm r(k); s.wp.reset(); s.wpUsed = false; s.wp.emplace(when_all_ready(std::move(l), std::move(e))); break; }
        case BLOCK:
            if (g.b()) { auto l = mk<true>(s, -1); Arm r(k); BL n = make_blocking(std::move(l)); failIn = -1; if (s.bl) *s.bl = std::move(n); else s.bl.emplace(std::move(n)); }
            else { auto e = mk<false>(s, -1); Arm r(k); BT n = make_blocking(std::move(e)); failIn = -1; auto& t = s.bt[a % 2]; if (t) *t = std::move(n); else t.emplace(std::move(n)); }
            break;
        case GET: { auto& t = s.bt[a % 2]; if (t && hasEnded(*t)) { Val v = t->get(); s.sum += v.get(); } if (s.bl && hasEnded(*s.bl)) { Val v = s.bl->get(); s.sum += v.get(); } break; }
        case VECTOR: if (s.vt.size() < 8) { s.vt.push_back(g.b() && s.lt[b].handle() ? std::move(s.lt[b]) : mk<true>(s, -1)); if (g.chance(1, 3)) s.vt.erase(s.vt.begin() + g.u(s.vt.size())); } break;
        case DISCARD: if (g.b()) (void)mk<true>(s, k); else (void)mk<false>(s, k); ++g_drops; break;
        case SWAP: std::swap(s.lt[a], s.lt[b]); std::swap(s.et[a], s.et[b]); if (s.bt[0] && s.bt[1]) std::swap(*s.bt[0], *s.bt[1]); break;
        default: break;
        }
    }
    catch (Boom&) { g.label("construction failed"); }
    catch (std::bad_alloc&) { g.label("allocation failed"); }
    failIn = -1;
}
struct GroupSum
{
    long* sum;
    template<class W> void one(W& w) { try { *sum += w.result().get(); } catch (Boom&) {} catch (std::bad_alloc&) {} catch (broken_promise&) {} }
    template<class... W> void all(std::tuple<W...>& t) { std::apply([&](auto&... w) { (one(w), ...); }, t); }
    template<class W> void all(std::vector<W>& t) { for (auto& w : t) one(w); }
    template<class U> void operator()(U&& u) { if constexpr (std::is_lvalue_reference_v<U&&>) all(u); else { auto v = std::move(u); all(v); } }
};
struct Sum { long* sum; template<class U> void operator()(U&& u) { if constexpr (std::is_lvalue_reference_v<U&&>) *sum += u.get(); else { Val v = std::move(u); *sum += v.get(); } } };

template<bool lazy> static task<Val, lazy> natBody(Job* j, Arg arg)
{
    BFrame f; Slots s(j);
#define AW(...) Sum{ &s.sum }(co_await __VA_ARGS__)
#define AWV(...) co_await __VA_ARGS__
#define AWG(...) GroupSum{ &s.sum }(co_await __VA_ARGS__)
#define AWW(...) auto r = co_await __VA_ARGS__; if (r.has_value()) s.sum += r.value().get()
#define TRYAW(...) try { Val v = co_await __VA_ARGS__; s.sum += v.get(); } catch (Boom&) {} catch (std::bad_alloc&) {} catch (broken_promise&) {}
#include "c03_body.inc"
    switch (j->retForm) { case 0: co_return Conv{ 5, false }; case 1: co_return Conv{ 5, true }; case 2: co_return arg.v; case 3: co_return std::move(arg.v); case 4: throw Boom(j->ret); default: co_return j->ret; }
}
#undef AW
#undef AWV
#undef AWG
#undef AWW
#undef TRYAW
template<bool lazy> static task<Val, lazy> macBody(Job* j, Arg a)
{
    using TT = task<Val, lazy>;
    MC_BEGIN(TT, j, arg = std::move(a), f = FrameM{}, s = Slots(j), r = result<Val>{});
#define AW(...) MC_AWAIT_FN(Sum{ &s.sum }, __VA_ARGS__)
#define AWV(...) MC_AWAIT(__VA_ARGS__)
#define AWG(...) MC_AWAIT_FN(GroupSum{ &s.sum }, __VA_ARGS__)
#define AWW(...) MC_AWAIT_SET(r, __VA_ARGS__); if (r.has_value()) s.sum += r.value().get()
#define TRYAW(...) MC_AWAIT_TRY(r, __VA_ARGS__); if (r.has_value()) s.sum += r.value().get()
#include "c03_body.inc"
    if (j->retForm == 4) throw Boom(j->ret);
    if (j->retForm == 0) MC_RETURN((Conv{ 5, false }));
    if (j->retForm == 1) MC_RETURN((Conv{ 5, true }));
    if (j->retForm == 2) MC_RETURN(arg.v);
    if (j->retForm == 3) MC_RETURN(std::move(arg.v));
    MC_RETURN(j->ret);
    MC_END();
}
template<bool lazy> static task<Val, lazy> make(Job* j, long arm, int bomb)
{
    bool lv = G->b(); Arg a(j->ret); struct Off { ~Off() { g_bomb = 0; } } off; g_bomb = bomb; Arm r(arm);
    if (j->mac) return lv ? macBody<lazy>(j, a) : macBody<lazy>(j, std::move(a));
    return lv ? natBody<lazy>(j, a) : natBody<lazy>(j, std::move(a));
}
template<bool lazy> static task<Val, lazy> mk(Slots& s, long arm)
{
    Job* j = newJob(s.depth + 1); if (s.depth >= 3) { j->depth = 9; }
    return make<lazy>(j, arm, G->chance(1, 12) ? 1 + (int)G->u(3) : 0);
}
static Own rootDriver(task<Val> t) { try { Val v = co_await std::move(t); (void)v; } catch (Boom&) {} catch (std::bad_alloc&) {} catch (broken_promise&) {} }

PBT_SECTION(work_drop, 800000, 16000000)
{
    std::deque<Job> js; jobs = &js; std::vector<Park*> pl; parkedList = &pl; G = &g; g_born = g_died = g_running = g_jobs = 0; g_parks = g_drops = 0; failIn = -1; failed = 0;
    long before = Track::live;
    int way = (int)g.u(5); bool dropped = false; long resumes = 0;
    g.note("root is %s, %s code", way == 0 ? "awaited" : way == 1 ? "eager" : way == 2 ? "a blocking handle" : way == 3 ? "a group member" : "a blocking handle of a lazy task", "");
    {
        Own d; std::optional<eager_task<Val>> e; std::optional<BT> b; std::optional<BL> bl; std::optional<WA> w; Own gd;
        Job* j = newJob(0);
        try
        {
            if (way == 0) { d = rootDriver(make<true>(j, -1, 0)); d.start(); }
            else if (way == 1) e.emplace(make<false>(j, -1, 0));
            else if (way == 2) b.emplace(make_blocking(make<false>(j, -1, 0)));
            else if (way == 4) bl.emplace(make_blocking(make<true>(j, -1, 0)));
            else { std::vector<task<Val>> v; v.push_back(make<true>(j, -1, 0)); v.push_back(make<true>(newJob(1), -1, 0)); w.emplace(when_all_ready(std::move(v))); gd = [](WA& x) -> Own { co_await x; }(*w); gd.start(); }
        }
        catch (std::bad_alloc&) { g.fail("an allocation failed unasked"); }
        while (!pl.empty())
        {
            if (g.chance(1, 24)) { dropped = true; g.note("--- the root is dropped with %zu suspended", pl.size()); break; }
            size_t i = g.u(pl.size()); g.note("--- resume suspended %zu of %zu", i, pl.size()); resumeOne(i);
            if (++resumes > 3000) { dropped = true; break; }
        }
        switch (g.u(3)) { case 0: break; case 1: d.reset(); e.reset(); b.reset(); bl.reset(); gd.reset(); w.reset(); break; default: if (e) { auto x = std::move(*e); *e = {}; } if (b) { BT x = std::move(*b); b.reset(); } d = {}; }
        gd.reset();
    }
    REQUIRE(pl.empty(), "%zu suspended awaiters were not destroyed", pl.size());
    REQUIRE(g_born == g_died, "%d bodies were created and %d destroyed", g_born, g_died);
    REQUIRE(Track::live == before, "%ld objects %s", std::labs(Track::live - before), Track::live > before ? "left" : "destroyed twice");
    if (failed) g.label("allocation failures"); if (dropped) g.label("root dropped while suspended");
    if (g_jobs >= 3 && g_parks >= 1 && (dropped || g_drops)) g.nontrivial();
}

// ---------------------------------------------------------------- work owned by a scope
// The handles of added work are kept, moved, assigned over, swapped, dropped and awaited in any order relative to the work's end.
struct SJob { int ret = 0, parks = 0; bool boom = false, mac = false, started = false, ended = false, awaited = false; };
template<bool lazy> static task<Val, lazy> scopeNat(SJob* j, Arg a)
{
    BFrame f; REQUIRE(!j->started, "a body ran twice"); j->started = true; int n = j->parks;
    while (n--) co_await Park(-1);
    j->ended = true; if (j->boom) throw Boom(j->ret);
    co_return std::move(a.v);
}
template<bool lazy> static task<Val, lazy> scopeMac(SJob* j, Arg arg)
{
    using TT = task<Val, lazy>;
    MC_BEGIN(TT, j, a = std::move(arg), f = FrameM{}, n = 0);
    REQUIRE(!j->started, "a body ran twice"); j->started = true; n = j->parks;
    while (n--) MC_AWAIT(Park(-1));
    j->ended = true; if (j->boom) throw Boom(j->ret);
    MC_RETURN(std::move(a.v));
    MC_END();
}
using ST = scoped_task<Val>;
struct SW { std::deque<SJob> js; std::optional<ST> slot[4]; SJob* in[4] = {}; int waiting = 0, waited = 0, booms = 0; bool joined = false; int reported = 0; };
static Own scopeWaiter(SW& w, ST t, SJob* j)
{
    BFrame f; ++w.waiting;
    try { Val v = co_await std::move(t); REQUIRE(j->ended && !j->boom && v.get() == j->ret, "awaiting added work gave a wrong value"); }
    catch (Boom& b) { REQUIRE(j->ended && j->boom && b.id == j->ret, "awaiting added work gave a wrong error"); }
    ++w.waited;
}
static Own scopeJoin(SW& w, async_scope& s)
{
    try { co_await s; } catch (async_scope_exception& e) { w.reported = (int)joinErrors(e).size(); }
    w.joined = true;
}
static ST addJob(async_scope& s, SJob* j, int form)
{
    if (form == 0) return s.add(j->mac ? scopeMac<true>(j, Arg(j->ret)) : scopeNat<true>(j, Arg(j->ret)));
    return s.add(j->mac ? scopeMac<false>(j, Arg(j->ret)) : scopeNat<false>(j, Arg(j->ret)));
}
PBT_SECTION(scope_drop, 300000, 6000000)
{
    std::vector<Park*> pl; parkedList = &pl; G = &g; g_born = g_died = 0; failIn = -1; g_bomb = 0; long before = Track::live; int adds = 0, overs = 0;
    {
        SW w; async_scope scope; std::deque<Own> owns; bool joining = false;
        int ops = (int)g.size(24);
        auto put = [&](int a, ST t, SJob* j) { if (w.slot[a]) { ++overs; *w.slot[a] = std::move(t); } else w.slot[a].emplace(std::move(t)); w.in[a] = j; };
        auto op = [&](int what)
        {
            int a = (int)g.u(4), b = (int)g.u(4);
            switch (what)
            {
            case 0: { w.js.emplace_back(); SJob* j = &w.js.back(); j->ret = (int)g.u(1000); j->parks = g.weighted({ 2, 4, 1 }); j->boom = g.chance(1, 3); j->mac = g.b(); ++adds;
                int form = g.weighted({ 3, 1 }); g.note("add %d to %d: %d suspensions%s%s", (int)w.js.size(), a, j->parks, j->boom ? ", throws" : "", form ? ", eager" : ""); put(a, addJob(scope, j, form), j); REQUIRE(j->started, "added work was not started"); break; }
            case 1: g.note("move %d over %d", b, a); if (a != b && w.slot[b]) { put(a, std::move(*w.slot[b]), w.in[b]); w.in[b] = nullptr; REQUIRE(!w.slot[b]->is_ready(), "moved-from work is not empty"); } break;
            case 2: g.note("drop %d", a); w.slot[a].reset(); w.in[a] = nullptr; break;
            case 3: g.note("self-move %d", a); if (w.slot[a]) { auto& x = *w.slot[a]; x = std::move(x); if (w.in[a] && w.in[a]->ended) REQUIRE(x.is_ready(), "self-move lost the work"); } break;
            case 4: g.note("swap %d %d", a, b); if (a != b && w.slot[a] && w.slot[b]) { std::swap(*w.slot[a], *w.slot[b]); std::swap(w.in[a], w.in[b]); } break;
            case 5: if (w.slot[a] && w.in[a]) { g.note("await %d", a); SJob* j = w.in[a]; j->awaited = true; w.in[a] = nullptr; owns.push_back(scopeWaiter(w, std::move(*w.slot[a]), j)); owns.back().start(); } break;
            case 6: if (pl.size()) { size_t i = g.u(pl.size()); g.note("resume %zu of %zu", i, pl.size()); resumeOne(i); } break;
            case 7: if (w.slot[a] && w.in[a]) REQUIRE(w.slot[a]->is_ready() == w.in[a]->ended, "readiness of added work is wrong"); break;
            case 8: g.note("assign empty to %d", a); if (w.slot[a]) { ++overs; *w.slot[a] = ST{}; w.in[a] = nullptr; } break;
            }
        };
        for (int i = 0; i < ops; ++i)
        {
            if (!joining && g.chance(1, 16)) { joining = true; g.note("join"); owns.push_back(scopeJoin(w, scope)); owns.back().start(); }
            if (joining && w.joined) break;
            op(g.weighted({ 6, 3, 2, 1, 1, 3, 7, 1, 1 }));
        }
        bool early = g.b(); if (early) for (auto& s : w.slot) s.reset();
        if (!joining) { owns.push_back(scopeJoin(w, scope)); owns.back().start(); }
        while (pl.size()) { REQUIRE(!w.joined, "the join completed with work suspended"); resumeOne(g.u(pl.size())); }
        REQUIRE(w.joined, "the join did not complete"); REQUIRE(w.waited == w.waiting, "%d of %d awaited tasks were resumed", w.waited, w.waiting);
        for (auto& j : w.js) REQUIRE(j.ended, "added work did not finish");
        if (early) { int want = 0; for (auto& j : w.js) if (j.boom && !j.awaited) ++want; if (!joining) REQUIRE(w.reported == want, "the join reported %d errors, expected %d", w.reported, want); }
        for (auto& s : w.slot) s.reset();
    }
    REQUIRE(pl.empty(), "suspended awaiters were not destroyed");
    REQUIRE(g_born == g_died, "%d bodies were created and %d destroyed", g_born, g_died);
    REQUIRE(Track::live == before, "%ld objects %s", std::labs(Track::live - before), Track::live > before ? "left" : "destroyed twice");
    if (adds >= 2 && overs) g.nontrivial();
}
// groups that spawn work: never awaited, moved, assigned over, or awaited to the end with their handles dropped at any point
struct GPlan { std::deque<SJob> js; int ops = 0; std::vector<int> what; bool boom = false; bool started = false; };
static when_all_scope group(GPlan* p, Arg a)
{
    BFrame f; p->started = true; std::optional<ST> slot[3]; SJob* in[3] = {};
    for (int i = 0; i < p->ops; ++i)
    {
        pbt::Gen& g = *G; int x = (int)g.u(3), y = (int)g.u(3);
        switch (p->what[i])
        {
        case 0: { p->js.emplace_back(); SJob* j = &p->js.back(); j->ret = (int)g.u(1000); j->parks = g.weighted({ 2, 4, 1 }); j->mac = g.b(); g.note("spawn into %d, %d suspensions", x, j->parks);
            ST t = co_await scoped(j->mac ? scopeMac<true>(j, Arg(j->ret)) : scopeNat<true>(j, Arg(j->ret)));
            REQUIRE(j->started, "spawned work was not started"); if (slot[x]) *slot[x] = std::move(t); else slot[x].emplace(std::move(t)); in[x] = j; break; }
        case 1: g.note("move %d over %d", y, x); if (x != y && slot[x] && slot[y]) { *slot[x] = std::move(*slot[y]); in[x] = std::exchange(in[y], nullptr); } break;
        case 2: g.note("drop %d", x); slot[x].reset(); in[x] = nullptr; break;
        case 3: if (slot[x] && in[x]) { g.note("await %d", x); SJob* j = std::exchange(in[x], nullptr); Val v = co_await std::move(*slot[x]); REQUIRE(j->ended && v.get() == j->ret, "awaiting spawned work gave a wrong value"); } break;
        case 4: co_await Park(-1); break;
        }
    }
}
static Own groupWaiter(when_all_scope& s, bool& done) { co_await s; done = true; }
PBT_SECTION(group_drop, 200000, 4000000)
{
    std::vector<Park*> pl; parkedList = &pl; G = &g; g_born = g_died = 0; failIn = -1; g_bomb = 0; long before = Track::live; size_t spawned = 0; bool moved = false, never = false;
    {
        GPlan p[2]; std::optional<when_all_scope> s[2]; 
        for (int i = 0; i < 2; ++i) { p[i].ops = (int)g.size(8); for (int k = 0; k < p[i].ops; ++k) p[i].what.push_back(g.weighted({ 5, 2, 2, 3, 2 })); s[i].emplace(group(&p[i], Arg(5))); }
        int cur = 0; GPlan* plan = &p[0];
        switch (g.u(5))
        {
        case 0: break;
        case 1: moved = true; g.note("assign over"); *s[0] = std::move(*s[1]); plan = &p[1]; break;
        case 2: { moved = true; g.note("move"); when_all_scope x(std::move(*s[0])); *s[1] = std::move(x); cur = 1; break; }
        case 3: { moved = true; auto& x = *s[0]; x = std::move(x); break; }
        default: g.note("swap"); moved = true; std::swap(*s[0], *s[1]); plan = &p[1]; break;
        }
        if (g.chance(1, 5)) { g.note("never awaited"); never = true; }
        else
        {
            bool done = false; Own w = groupWaiter(*s[cur], done); w.start(); REQUIRE(plan->started, "the group's body did not start");
            while (pl.size()) { REQUIRE(!done, "the group completed with work suspended"); size_t i = g.u(pl.size()); g.note("resume %zu of %zu", i, pl.size()); resumeOne(i); }
            REQUIRE(done, "the group did not complete"); for (auto& j : plan->js) REQUIRE(j.ended, "spawned work did not finish"); spawned = plan->js.size();
        }
    }
    REQUIRE(pl.empty(), "suspended awaiters were not destroyed");
    REQUIRE(g_born == g_died, "%d bodies were created and %d destroyed", g_born, g_died);
    REQUIRE(Track::live == before, "%ld objects %s", std::labs(Track::live - before), Track::live > before ? "left" : "destroyed twice");
    if (never) g.label("never awaited"); if (spawned >= 2 && moved) g.nontrivial();
}
