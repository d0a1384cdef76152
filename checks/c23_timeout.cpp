#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include "macoro/thread_pool.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/timeout.h"
#include "macoro/take_until.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "zoo.h"
#include "vsched_off.h"
using namespace macoro;
using ns = std::chrono::nanoseconds;
static const int64_t D[] = { 0, 1000, 5000, 5000, 1000000, 20000000, 3600000000000ll, -5000 };
static int64_t now() { vs::Quiet q; return vs::nowNs(); }
static void sleepNs(int64_t d) { if (d > 0) std::vs_this_thread::sleep_for(ns(d)); }

// A scheduler that is not a pool: one thread per delay, which resumes the waiter itself; a stop
// request resumes the waiter from inside the call that requests the stop.
struct RawSched
{
    std::vector<std::vs_thread> th; bool throws = false; // cancelled waits may throw
    struct Op
    {
        struct Sh { int st = 0; std::function<void()> k; }; // 0 being armed, 1 armed, 2 taken
        RawSched* s; ns d; stop_token t; std::shared_ptr<Sh> sh; std::optional<stop_callback> cb;
        Op(RawSched* a, ns b, stop_token c) : s(a), d(b), t(std::move(c)) {}
        Op(Op&& o) noexcept : s(o.s), d(o.d), t(std::move(o.t)) {}
        static void take(const std::shared_ptr<Sh>& x) { int o; { vs::Quiet q; o = std::exchange(x->st, 2); } vs::tsanAcquire(x.get()); vs::tsanRelease(x.get()); if (o == 1) { auto k = x->k; k(); } }
        bool await_ready() { return t.stop_requested(); }
        template<class H> bool await_suspend(H h)
        {
            auto x = std::make_shared<Sh>(); { vs::Quiet q; x->k = [h]() mutable { h.resume(); }; } sh = x; int64_t dd = d.count();
            vs::tsanRelease(x.get());
            std::vs_thread timer([x, dd] { sleepNs(dd); take(x); });
            { vs::Quiet q; s->th.push_back(std::move(timer)); }
            if (t.stop_possible()) cb.emplace(t, [x] { take(x); });
            vs::tsanRelease(x.get());
            bool armed; { vs::Quiet q; armed = x->st == 0; if (armed) x->st = 1; }
            return armed;
        }
        void await_resume() { if (sh) vs::tsanAcquire(sh.get()); cb.reset(); if (s->throws && t.stop_requested()) throw Boom(31337); }
    };
    template<class R, class P> Op schedule_after(std::chrono::duration<R, P> d, stop_token t) { return Op(this, std::chrono::duration_cast<ns>(d), std::move(t)); }
    void finish() { for (size_t i = 0; i < th.size(); ++i) th[i].join(); }
};
namespace {
struct Rnd
{
    int64_t d = 0; int tok = 0; int how = 0; int64_t cancelAfter = -1; int64_t awaitAfter = 0; int wait = 0; int move = 0; int64_t sampleAfter = -1; bool useReset = false;
    int64_t t0 = -1, stopAt = -1, doneAt = -1, exp = -1; int stops = 0; bool early = false, sample = false; int64_t sampleAt = -1;
};
struct TO { std::vector<Rnd> r; int from = 0; bool raw = false; };
}
static Drv awaitNat(timeout& t, bool mv, Gate& g, int64_t& at) { if (mv) co_await std::move(t); else co_await t; { vs::Quiet q; at = vs::nowNs(); } g.release(); }
static task<void> awaitMac(timeout& t, int64_t& at) { MC_BEGIN(task<void>, &t, &at); MC_AWAIT(t); { vs::Quiet q; at = vs::nowNs(); } MC_END(); }
template<class S> static Drv makeOnPool(thread_pool& p, S& sc, timeout& t, Rnd& r, stop_token tok, Gate& g)
{
    co_await p.schedule(); { vs::Quiet q; r.t0 = vs::nowNs(); }
    if (r.useReset) t.reset(sc, ns(r.d), tok); else t = timeout(sc, ns(r.d), tok);
    g.release();
}
template<class S> static void script(thread_pool& pool, S& P, TO& T)
{
    timeout to;
    for (auto& r : T.r)
    {
        stop_source outer; stop_token tok;
        switch (r.tok) { case 0: break; case 1: tok = outer.get_token(); break; case 2: outer.request_stop(); tok = outer.get_token(); break; case 3: { stop_source s; tok = s.get_token(); } break; }
        if (T.from) { Gate g; makeOnPool(pool, P, to, r, tok, g); g.wait(); }
        else { { vs::Quiet q; r.t0 = vs::nowNs(); } if (r.useReset) to.reset(P, ns(r.d), tok); else to = timeout(P, std::chrono::duration<int64_t, std::nano>(r.d), tok); }
        stop_token mine = to.get_token(); stop_source src = to.get_source();
        std::optional<timeout> moved; timeout* cur = &to;
        if (r.move == 1 || r.move == 3) { moved.emplace(std::move(to)); cur = &*moved; if (r.move == 3) to = timeout(); }
        if (r.move == 2) { timeout x(std::move(to)); moved.emplace(); *moved = std::move(x); cur = &*moved; }
        auto cb = std::make_unique<stop_callback>(mine, [&r] { vs::Quiet q; ++r.stops; r.stopAt = vs::nowNs(); });
        std::vector<std::vs_thread> th;
        int64_t c = -1; timeout* original = &to;
        if (r.cancelAfter >= 0) th.emplace_back([&, cur, original] {
            sleepNs(r.cancelAfter); { vs::Quiet q; c = vs::nowNs(); }
            switch (r.how) { case 0: src.request_stop(); break; case 1: outer.request_stop(); break; default: ((r.move == 1 || r.move == 2) && r.how == 3 ? original : cur)->request_stop(); break; }
        });
        if (r.sampleAfter >= 0) th.emplace_back([&] { sleepNs(r.sampleAfter); vs::Quiet q; r.sampleAt = vs::nowNs(); r.sample = mine.stop_requested(); });
        sleepNs(r.awaitAfter); int64_t aw = now();
        switch (r.wait)
        {
        case 0: sync_wait(*cur); r.doneAt = now(); break;
        case 1: sync_wait(std::move(*cur)); r.doneAt = now(); break;
        case 2: case 3: { Gate g; awaitNat(*cur, r.wait == 3, g, r.doneAt); g.wait(); } break;
        default: sync_wait(awaitMac(*cur, r.doneAt)); break;
        }
        for (auto& t : th) t.join();
        vs::Quiet q;
        REQUIRE(mine.stop_requested() && cur->get_source().stop_requested(), "a finished timeout has requested stop");
        int64_t e = r.t0 + std::max<int64_t>(0, r.d); if (r.tok == 2) e = r.t0;
        if (c >= 0 && (r.how != 1 || r.tok == 1)) { c = std::max(c, r.t0); if (c < e) { e = c; r.early = true; } }
        r.exp = e;
        REQUIRE(r.stops == 1, "the timeout's token was notified %d times", r.stops);
        REQUIRE(r.stopAt == e || (e == r.t0 && r.stopAt <= aw), "the timeout requested stop at %lld, expected %lld (started %lld, duration %lld, ended early at %lld)", (long long)r.stopAt, (long long)e, (long long)r.t0, (long long)r.d, (long long)c);
        REQUIRE(r.doneAt == std::max(e, aw), "awaiting the timeout completed at %lld, expected %lld", (long long)r.doneAt, (long long)std::max(e, aw));
        if (r.sampleAt >= 0 && r.sampleAt != e) REQUIRE(r.sample == (r.sampleAt > e), "at %lld the token reported %d, the timeout ends at %lld", (long long)r.sampleAt, r.sample, (long long)e);
        if (moved) to = timeout();
    }
}
PBT_SECTION(timeout_schedules, 40000, 1200000)
{
    bool rt = g.b(); int nth = 1 + (int)g.u(3), nt = 1 + (int)g.u(3); std::deque<TO> T; int early = 0, rounds = 0; uint64_t sw = 0; LiveCheck lc; bool resets = false;
    for (int k = 0; k < nt; ++k)
    {
        auto& t = T.emplace_back(); t.from = g.chance(1, 4); t.raw = g.chance(1, 3); int nr = 1 + (int)g.biased(3, 1, 3);
        for (int i = 0; i < nr; ++i)
        {
            auto& r = t.r.emplace_back(); r.d = D[g.u(8)]; r.tok = (int)g.u(4); r.how = (int)g.u(4); if (g.chance(2, 3)) r.cancelAfter = D[g.u(7)];
            if (g.chance(1, 3)) r.awaitAfter = D[g.u(7)]; r.wait = (int)g.u(5); r.move = (int)g.biased(4, 1, 2); if (g.b()) r.sampleAfter = D[g.u(7)]; r.useReset = i && g.b(); resets |= r.useReset;
            ++rounds;
            g.note("timeout %d round %d: duration %lld, %s token, %s%s%s", k, i, (long long)r.d, (const char*[]) { "no", "outer", "already requested", "impossible" }[r.tok], r.cancelAfter >= 0 ? "ended early through " : "not ended early", r.cancelAfter >= 0 ? (const char*[]) { "its source", "the outer source", "request_stop", "request_stop on the original" }[r.how] : "", r.move ? ", moved" : "");
        }
    }
    vs::Opts o; o.timeJumps = false; o.spurious = g.b();
    vs::run(g, [&] {
        thread_pool P; auto w = P.make_work(); P.create_threads(nth); RawSched raw; raw.throws = rt;
        std::vector<std::vs_thread> th; for (auto& t : T) th.emplace_back([&] { if (t.raw) script(P, raw, t); else script(P, P, t); });
        for (auto& t : th) t.join();
        raw.finish();
        w.reset(); P.join(); sw = vs::switches();
    }, o);
    lc.done();
    for (auto& t : T) for (auto& r : t.r) early += r.early;
    if (rounds >= 2 && sw > (uint64_t)(nth + nt)) g.nontrivial();
    if (early) g.label("ended early"); if (resets) g.label("reset");
}

// ------------------------------------------------------------------ take_until
struct TS
{
    stop_source src; int mode = 0; int64_t at = 0; bool throws = false; int reqs = 0, awaits = 0, res = 0; int64_t reqAt = -1; Plan* guard = nullptr; bool reqEarly = false; XEv ev; Mark m;
};
// a custom trigger. mode 0: completes when its source is stopped, which its own timer does at `at`;
// mode 1: completes immediately; mode 2: completes at a fixed time whatever is requested; 3: an eager coroutine on the source.
struct Trig
{
    TS* s; eager_task<void> e;
    void request_stop() { { vs::Quiet q; ++s->reqs; s->reqAt = vs::nowNs(); s->reqEarly |= !s->guard->ends; } s->src.request_stop(); }
    struct Aw
    {
        TS* s; std::optional<stop_awaiter> a;
        bool await_ready() { { vs::Quiet q; ++s->awaits; } if (s->mode == 1) return true; if (s->mode == 0) { a.emplace(s->src.get_token()); return a->await_ready(); } return false; }
        template<class H> std::coroutine_handle<> await_suspend(H h) { if (s->mode == 0) return std::coroutine_handle<>(a->await_suspend(h)); XEv::Aw x{ &s->ev }; x.await_suspend(h); return std::noop_coroutine(); }
        int await_resume() { if (s->mode == 0) a->await_resume(); else if (s->mode == 2) vs::tsanAcquire(&s->ev); s->m.set(); { vs::Quiet q; ++s->res; } if (s->throws) throw Boom(77777); return 5; }
    };
    Aw operator co_await() && { return Aw{ s }; }
};
struct ETrig
{
    TS* s; eager_task<Val> e;
    void request_stop() { { vs::Quiet q; ++s->reqs; s->reqAt = vs::nowNs(); s->reqEarly |= !s->guard->ends; } s->src.request_stop(); }
    auto operator co_await() && { vs::Quiet q; ++s->awaits; return std::move(e).operator co_await(); }
};
static eager_task<Val> etrigBody(TS& s) { co_await stop_awaiter(s.src.get_token()); s.m.set(); { vs::Quiet q; ++s.res; } if (s.throws) throw Boom(77777); co_return Val(4); }
struct Guard { int kind = 0, zoo = 0, type = 0; Plan plan; XEv ev; int64_t at = 0; std::vector<int64_t> pulses; Out out; int refv = 0; int64_t start = -1, end = -1; bool onlyStop = false; };
// guards that look at the shared source: stops at the deadline or when stop is requested
template<class T> task<T> coopNat(thread_pool& P, Plan& p, int64_t d, stop_token t, bool only)
{
    p.start(); if (only) co_await stop_awaiter(stop_token(t)); else co_await P.schedule_after(ns(d), t); p.end();
    if (p.throws) exk::raise(p.ek, p.value); if constexpr (!std::is_void_v<T>) co_return Mk<T>::mk(p.value, nullptr);
}
template<class T> eager_task<T> coopEager(thread_pool& P, Plan& p, int64_t d, stop_token t, bool only)
{
    p.start(); if (only) co_await stop_awaiter(stop_token(t)); else co_await P.schedule_after(ns(d), t); p.end();
    if (p.throws) exk::raise(p.ek, p.value); if constexpr (!std::is_void_v<T>) co_return Mk<T>::mk(p.value, nullptr);
}
template<class T> task<T> coopMac(thread_pool& P, Plan& p, int64_t d, stop_token t, bool only)
{
    MC_BEGIN(task<T>, &P, &p, d, t, only);
    p.start(); if (only) MC_AWAIT(stop_awaiter(stop_token(t))); else MC_AWAIT(P.schedule_after(ns(d), t)); p.end();
    if (p.throws) exk::raise(p.ek, p.value); if constexpr (!std::is_void_v<T>) MC_RETURN((Mk<T>::mk(p.value, nullptr)));
    MC_END();
}
struct Case { Guard gd; TS ts; int trig = 0; int64_t d = 0; int64_t awaitAfter = 0; bool drop = false; int waitKind = 0; int64_t outerAt = -1; bool raw = false; stop_source outer; std::unique_ptr<stop_callback> cb; int64_t t0 = 0, a0 = 0, done = -1, stopAt = -1; int stops = 0; bool lv = false; };
template<class T, class A, class U> static void runCase(Case& c, A&& a, U&& u)
{
    auto t = take_until(std::forward<A>(a), std::forward<U>(u));
    { vs::Quiet q; if (c.gd.kind != 1 && c.gd.zoo != 2 && c.gd.zoo != 3) REQUIRE(c.gd.plan.starts == 0, "take_until started the awaitable before being awaited"); REQUIRE(c.ts.reqs == 0, "take_until requested stop before being awaited"); }
    if (c.drop) return;
    sleepNs(c.awaitAfter); c.a0 = now();
    c.gd.out.template run<T>(c.gd.plan, [&]() -> T { if (c.lv) { if constexpr (std::is_void_v<T>) sync_wait(t); else return std::move(sync_wait(t)); } else return sync_wait(std::move(t)); });
    if (c.trig) c.ts.m.see("take_until");
    c.done = now();
}
static void hook2(void* v) { auto* c = (Case*)v; c->gd.start = vs::nowNs(); }
template<class T, class F> static void withGuard(thread_pool& P, Case& c, stop_token tok, F&& f)
{
    auto& gd = c.gd;
    if (gd.kind == 0) withZoo<T>(gd.zoo, gd.plan, [&](auto mk) { f(mk); });
    else if (gd.zoo == 0) f([&] { return coopNat<T>(P, gd.plan, gd.at, tok, gd.onlyStop); });
    else if (gd.zoo == 1) f([&] { return coopMac<T>(P, gd.plan, gd.at, tok, gd.onlyStop); });
    else f([&] { return coopEager<T>(P, gd.plan, gd.at, tok, gd.onlyStop); });
}
template<class T> static void doCase(thread_pool& P, RawSched& R, Case& c)
{
    auto reg = [&](stop_token t) { return std::make_unique<stop_callback>(t, [&c] { vs::Quiet q; ++c.stops; c.stopAt = vs::nowNs(); }); };
    c.t0 = now();
    if (c.trig == 0)
    {
        timeout to = c.raw ? timeout(R, ns(c.d), c.outer.get_token()) : timeout(P, ns(c.d), c.outer.get_token()); c.cb = reg(to.get_token());
        withGuard<T>(P, c, to.get_token(), [&](auto mk) { runCase<T>(c, mk(), std::move(to)); });
    }
    else if (c.trig == 1)
    {
        c.cb = reg(c.ts.src.get_token());
        withGuard<T>(P, c, c.ts.src.get_token(), [&](auto mk) { runCase<T>(c, mk(), Trig{ &c.ts }); });
    }
    else
    {
        c.cb = reg(c.ts.src.get_token());
        withGuard<T>(P, c, c.ts.src.get_token(), [&](auto mk) { runCase<T>(c, mk(), ETrig{ &c.ts, etrigBody(c.ts) }); });
    }
}
PBT_SECTION(take_until_schedules, 40000, 1200000)
{
    std::deque<Case> C; int nth = 1 + (int)g.u(3), nc = 1 + (int)g.u(2); uint64_t sw = 0; LiveCheck lc; int first = 0; int64_t S = 0;
    for (int k = 0; k < nc; ++k)
    {
        auto& c = C.emplace_back(); auto& gd = c.gd; gd.kind = (int)g.u(2); gd.zoo = (int)g.u(gd.kind ? 3 : nZoo); gd.type = (int)g.u(4); gd.at = D[g.u(8)];
        gd.plan.throws = g.chance(1, 3); gd.plan.ek = (int)g.biased(exk::n, 1, 2); gd.plan.value = 2 * (int)g.u(50); gd.plan.ev = &gd.ev; gd.plan.hook = hook2; gd.plan.hookArg = &c;
        c.ts.guard = &gd.plan; c.trig = (int)g.u(3); if (c.trig == 0) { c.raw = g.chance(1, 3); if (g.chance(1, 3)) c.outerAt = D[g.u(7)]; } c.d = D[g.u(8)]; c.ts.mode = c.trig == 1 ? (int)g.u(3) : 0; c.ts.throws = g.chance(1, 4); c.ts.at = D[g.u(7)]; c.lv = g.b();
        if (gd.kind == 0) { gd.plan.nSusp = (int)g.biased(3, 1, 3); for (int i = 0; i < gd.plan.nSusp; ++i) gd.pulses.push_back(D[g.u(6)]); }
        else if (g.chance(1, 3) && (c.trig == 0 || (c.ts.mode == 0))) gd.onlyStop = true;
        if (g.chance(1, 3)) c.awaitAfter = D[g.u(6)];
        if (c.trig == 1 && gd.zoo != 2 && gd.zoo != 3 && g.chance(1, 8)) c.drop = true;
        g.note("case %d: guard %s%s until %lld, trigger %s at %lld%s", k, gd.kind ? "cooperative " : "", gd.kind ? (const char*[]) { "native", "macro", "eager" }[gd.zoo] : zooNames[gd.zoo], (long long)gd.at, (const char*[]) { "timeout", "custom", "eager" }[c.trig], (long long)(c.trig ? c.ts.at : c.d), c.drop ? ", dropped" : "");
    }
    vs::Opts o; o.timeJumps = false; o.spurious = g.b();
    vs::run(g, [&] {
        thread_pool P; auto w = P.make_work(); P.create_threads(nth);
        std::vector<std::vs_thread> th; RawSched R; R.throws = nth & 1; { vs::Quiet q; S = vs::nowNs(); }
        for (auto& c : C)
        {
            th.emplace_back([&] { switch (c.gd.type) { case 0: doCase<int>(P, R, c); break; case 1: doCase<void>(P, R, c); break; case 2: doCase<Val>(P, R, c); break; default: doCase<MVal>(P, R, c); } });
            if (!c.drop || c.trig == 0) th.emplace_back([&c] { for (auto d : c.gd.pulses) { sleepNs(d); c.gd.ev.fire(); } });
            if (c.outerAt >= 0) th.emplace_back([&c] { sleepNs(c.outerAt); c.outer.request_stop(); });
            if (c.trig && !c.drop && c.ts.mode != 1) th.emplace_back([&c] { sleepNs(c.ts.at); if (c.ts.mode == 2) c.ts.ev.fire(); else c.ts.src.request_stop(); });
        }
        for (auto& t : th) t.join();
        R.finish(); w.reset(); P.join(); sw = vs::switches();
        for (auto& c : C) c.cb.reset();
    }, o);
    for (auto& c : C)
    {
        auto& gd = c.gd;
        if (c.drop) { REQUIRE(gd.plan.starts == 0 && c.ts.reqs == 0 && c.ts.awaits == 0 && c.ts.res == 0, "a dropped take_until started something"); continue; }
        gd.out.check(gd.plan, "take_until");
        // where the outcome is due: when both sides are over
        bool eager = gd.kind ? gd.zoo == 2 : gd.zoo == 2 || gd.zoo == 3, fixed = c.trig && c.ts.mode; int64_t gs = eager ? c.t0 : c.a0, trig = c.trig ? S + c.ts.at : c.t0 + std::max<int64_t>(0, c.d);
        if (c.outerAt >= 0) trig = std::min(trig, std::max(c.t0, S + c.outerAt));
        int64_t gend = gs;
        if (gd.kind == 0) { int64_t t = S; for (auto d : gd.pulses) t = std::max(t + std::max<int64_t>(0, d), gs); gend = std::max(gs, t); }
        else { gend = gd.onlyStop ? INT64_MAX : gs + std::max<int64_t>(0, gd.at); if (!fixed) gend = std::min(gend, std::max(gs, trig)); }
        int64_t R = std::max(c.a0, gend), stop = fixed ? R : std::min(trig, R), done = fixed && c.ts.mode == 2 ? std::max(R, S + c.ts.at) : R;
        REQUIRE(c.stops == 1, "stop was notified %d times", c.stops);
        REQUIRE(c.stopAt == stop, "stop was requested at %lld, expected %lld (awaitable over at %lld, trigger due at %lld)", (long long)c.stopAt, (long long)stop, (long long)gend, (long long)trig);
        REQUIRE(c.done == done, "take_until completed at %lld, expected %lld (awaitable over at %lld, trigger due at %lld)", (long long)c.done, (long long)done, (long long)gend, (long long)trig);
        if (c.trig)
        {
            REQUIRE(c.ts.reqs == 1, "take_until asked its trigger to stop %d times", c.ts.reqs);
            REQUIRE(!c.ts.reqEarly && c.ts.reqAt == R, "take_until asked its trigger to stop at %lld, the awaitable was over at %lld", (long long)c.ts.reqAt, (long long)R);
            REQUIRE(c.ts.awaits == 1 && c.ts.res == 1, "the trigger was awaited %d times and completed %d times", c.ts.awaits, c.ts.res);
        }
        if (stop < R) ++first;
    }
    if (sw > (uint64_t)(nth + nc)) g.nontrivial();
    if (first) g.label("trigger first");
    C.clear(); lc.done();
}
