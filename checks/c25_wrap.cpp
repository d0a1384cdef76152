#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include "macoro/result.h"
#include "macoro/wrap.h"
#include "macoro/start_on.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "zoo.h"
#include "lvaw.h"
#include "vsched_off.h"
using namespace macoro;
template<> struct Mk<Val&> { static Val& mk(int, int* p) { return *(Val*)p; } static int rd(const Val& v) { return v.get(); } };

using exk::Seen; using exk::seen; using exk::seenP;
static void throwKind(int k, int v) { exk::raise(k, v); }
// ------------------------------------------------------------------ wrapping any awaitable
struct WCase { Plan plan; XEv ev; int zoo = 0, type = 0, form = 0, unwrap = 0; int refv = 0; std::optional<Val> refVal; bool ok = false; };
template<class T> static void checkResult(WCase& c, auto& r, const char* what)
{
    vs::Quiet q; auto& p = c.plan;
    REQUIRE(p.starts == 1 && p.ends == 1, "%s: the awaitable started %d times and finished %d times", what, p.starts, p.ends);
    REQUIRE(r.has_error() == p.throws, "%s: the result holds %s, the awaitable %s", what, r.has_error() ? "an error" : "a value", p.throws ? "threw" : "returned");
    if (p.throws) { auto s = seenP(r.error()); REQUIRE(s == (Seen{ p.ek, p.value }), "%s: the captured exception is %d/%d, thrown was %d", what, s.kind, s.v, p.value); }
    else if constexpr (!std::is_void_v<T>) REQUIRE(Mk<std::remove_reference_t<T>>::rd(r.value()) == p.value, "%s: captured value %d, expected %d", what, Mk<std::remove_reference_t<T>>::rd(r.value()), p.value);
    if constexpr (std::is_same_v<T, Val&>) REQUIRE(c.refVal->get() == p.value, "%s: the referenced object changed", what);
}
template<class T> using RT = result<std::conditional_t<std::is_void_v<T>, void, T>>;
// unwrapping gives the outcome back
template<class R> struct RVal; template<class T> struct RVal<result<T>> { using type = T; };
template<class R> static Own unwrapN(WCase& c, R& r, Seen& s, int& v, bool mv)
{
    try { if constexpr (std::is_void_v<typename R::value_type>) { if (mv) co_await std::move(r); else co_await r; v = c.plan.value; } else { if (mv) { auto&& x = co_await std::move(r); v = Mk<typename R::value_type>::rd(x); } else { auto&& x = co_await r; v = Mk<typename R::value_type>::rd(x); } } }
    catch (...) { s = seenP(std::current_exception()); }
}
template<class T, class R> static void unwrapCheck(WCase& c, R& r)
{
    // a result of a reference cannot be unwrapped with co_await
    if constexpr (!std::is_reference_v<T>)
    {
        vs::Quiet q; Seen s; int v = -1; auto& p = c.plan;
        if constexpr (!std::is_reference_v<typename RVal<R>::type>) if (c.unwrap < 2) { Own o = unwrapN(c, r, s, v, c.unwrap); o.start(); o.rethrow(); }
        if (std::is_reference_v<typename RVal<R>::type> || c.unwrap == 2) s = seen([&] { if constexpr (std::is_void_v<T>) { r.value(); v = p.value; } else v = Mk<T>::rd(r.value()); });
        if (p.throws) REQUIRE(s == (Seen{ p.ek, p.value }), "unwrapping the failure gave %d/%d, expected the exception %d", s.kind, s.v, p.value);
        else REQUIRE(s.kind == -1 && v == p.value, "unwrapping the success gave %d (exception kind %d), expected %d", v, s.kind, p.value);
    }
    c.ok = true;
}
template<class T, class MKF> static task<void> wNat(WCase& c, MKF mk)
{
    switch (c.form)
    {
    case 0: { auto r = co_await wrap(mk()); checkResult<T>(c, r, "co_await wrap"); unwrapCheck<T>(c, r); break; }
    case 1: { auto r = co_await (mk() | wrap()); checkResult<T>(c, r, "co_await | wrap"); unwrapCheck<T>(c, r); break; }
    default: { auto r = co_await wrap(mk()); checkResult<T>(c, r, "co_await wrap"); unwrapCheck<T>(c, r); break; }
    }
}
template<class T, class MKF> static task<void> wNatLv(WCase& c, MKF mk) { auto a = mk(); auto r = co_await wrap(a); checkResult<T>(c, r, "co_await wrap(lvalue)"); unwrapCheck<T>(c, r); }
template<class T, class MKF> static task<void> wMac(WCase& c, MKF mk_)
{
    using R = result<remove_rvalue_reference_t<awaitable_result_t<decltype(mk_())>>>;
    MC_BEGIN(task<void>, &c, mk = std::move(mk_), r = R(Err(std::exception_ptr{})));
    if (c.form == 3) MC_AWAIT_SET(r, wrap(mk()));
    else if (c.form == 4) MC_AWAIT_SET(r, mk() | wrap());
    else MC_AWAIT_TRY(r, mk());
    checkResult<T>(c, r, c.form < 5 ? "macro await of wrap" : "try-await"); unwrapCheck<T>(c, r);
    MC_END();
}
template<class T, class MKF> static task<void> wMacLv(WCase& c, MKF mk)
{
    using A = decltype(mk()); using R = result<remove_rvalue_reference_t<awaitable_result_t<A&>>>;
    MC_BEGIN(task<void>, &c, a = mk(), r = R(Err(std::exception_ptr{})));
    if (c.form == 6) MC_AWAIT_TRY(r, a);
    else MC_AWAIT_SET(r, wrap(a));
    checkResult<T>(c, r, c.form == 6 ? "try-await of an lvalue" : "macro await of wrap(lvalue)"); unwrapCheck<T>(c, r);
    MC_END();
}
// capturing and releasing again, at any depth
template<class T> static task<T> again(task<T> in, int n, int how)
{
    if (n > 1) in = again<T>(std::move(in), n - 1, how / 3);
    if (how % 3 == 0) { auto r = co_await wrap(std::move(in)); if constexpr (std::is_void_v<T>) co_await r; else co_return co_await std::move(r); }
    else if (how % 3 == 1) { auto r = co_await (std::move(in) | wrap()); if constexpr (std::is_void_v<T>) r.value(); else co_return std::move(r.value()); }
    else { auto r = co_await wrap(wrap(std::move(in))); auto x = std::move(r.value()); if constexpr (std::is_void_v<T>) co_await x; else co_return co_await std::move(x); }
}
template<class T, class MKF> static void wRun(WCase& c, MKF mk)
{
    using A = decltype(mk());
    if (c.form < 2) sync_wait(wNat<T>(c, mk));
    else if (c.form < 6 && c.form > 2) sync_wait(wMac<T>(c, mk));
    else if (c.form == 8) { auto r = sync_wait(wrap(mk())); checkResult<T>(c, r, "sync_wait(wrap)"); unwrapCheck<T>(c, r); }
    else if (c.form == 9) { auto r = sync_wait(mk() | wrap()); checkResult<T>(c, r, "sync_wait(| wrap)"); unwrapCheck<T>(c, r); }
    else if constexpr (std::is_same_v<T, MVal>) sync_wait(wNat<T>(c, mk));
    else if (c.form == 2) sync_wait(wNatLv<T>(c, mk));
    else sync_wait(wMacLv<T>(c, mk));
}
template<class T> static void wType(WCase& c, int depth, int how)
{
    withZoo<T>(c.zoo, c.plan, [&](auto mk) {
        if constexpr (!std::is_reference_v<T>) { if (depth) { wRun<T>(c, [&c, mk, depth, how] { return again<T>(make_task(mk()), depth, how); }); return; } }
        wRun<T>(c, mk);
    });
}
PBT_SECTION(wrap_outcomes, 60000, 2000000)
{
    WCase c; c.zoo = (int)g.u(nZoo); c.type = (int)g.u(6); c.form = (int)g.u(10); c.unwrap = (int)g.u(3); int depth = (int)g.biased(5, 1, 2), how = (int)g.u(81);
    c.plan.nSusp = (int)g.biased(3, 1, 2); c.plan.throws = g.b(); c.plan.ek = (int)g.biased(exk::n, 1, 2); c.plan.value = 2 * (int)g.u(50); c.plan.ev = &c.ev;
    if (c.type == 4) { c.refv = c.plan.value; c.plan.ref = &c.refv; } 
    LiveCheck lc; if (c.type == 5) { c.refVal.emplace(c.plan.value); c.plan.ref = (int*)&*c.refVal; }
    g.note("%s of %s, form %d, %d suspension(s), %s %d, depth %d", zooNames[c.zoo], (const char*[]) { "int", "void", "Val", "move-only", "int&", "Val&" }[c.type], c.form, c.plan.nSusp, c.plan.throws ? "throws" : "returns", c.plan.value, depth);
    vs::run(g, [&] {
        std::vector<std::vs_thread> th; if (c.plan.nSusp) th.emplace_back([&] { for (int i = 0; i < c.plan.nSusp; ++i) c.ev.fire(); });
        switch (c.type) { case 0: wType<int>(c, depth, how); break; case 1: wType<void>(c, depth, how); break; case 2: wType<Val>(c, depth, how); break; case 3: wType<MVal>(c, depth, how); break; case 4: wType<int&>(c, depth, how); break; default: wType<Val&>(c, depth, how); }
        for (auto& t : th) t.join();
    });
    REQUIRE(c.ok, "the wrapped awaitable never completed");
    if (c.refVal) REQUIRE(c.refVal->get() == c.plan.value, "the referenced object changed");
    c.refVal.reset(); lc.done();
    if (c.plan.nSusp || depth || c.plan.throws) g.nontrivial();
}

// ------------------------------------------------------------------ coroutines that return results
struct RStep { int id = 0; bool ok = true; int v = 0, ek = 0, type = 0, how = 0; bool caught = false; std::unique_ptr<struct RProg> child; };
struct RProg { std::vector<RStep> st; int type = 0; bool macro = false; int end = 0, v = 0, ek = 0; };
struct RTrace { std::vector<int> ev; };
static RTrace* TR;
static void ev(int i) { TR->ev.push_back(i); }
template<class T> static result<T> mkRes(const RStep& s)
{
    ev(s.id * 10);
    if (!s.ok) { std::exception_ptr e; try { throwKind(s.ek, s.v); } catch (...) { e = std::current_exception(); } return Err(e); }
    if constexpr (std::is_void_v<T>) return Ok(); else return Ok(Mk<T>::mk(s.v, nullptr));
}
struct Local { int id; Local(int i) : id(i) { ++Track::live; ev(id * 10 + 1); } Local(const Local&) = delete; ~Local() { --Track::live; ev(id * 10 + 2); } };
template<class T> result<T> rNat(RProg& p);
template<class T> result<T> rMac(RProg& p);
template<class T> static result<T> rAny(RProg& p) { return p.macro ? rMac<T>(p) : rNat<T>(p); }
template<class T> static result<T> stepRes(RStep& s) { return s.child ? rAny<T>(*s.child) : mkRes<T>(s); }
template<class T> static int rd(const result<T>& r) { if constexpr (std::is_void_v<T>) return 0; else return Mk<T>::rd(r.value()); }
template<class T> result<T> endRes(RProg& p, int sum);
template<class T> result<T> rNat(RProg& p)
{
    int sum = 0;
    for (auto& s : p.st)
    {
        Local l(s.id);
        if (s.caught)
        {
            bool bad = false;
            try { if (s.type == 0) sum += co_await stepRes<int>(s); else if (s.type == 1) co_await stepRes<void>(s); else { auto r = stepRes<MVal>(s); MVal m = co_await std::move(r); sum += m.get(); } }
            catch (...) { bad = true; }
            ev(s.id * 10 + (bool(bad) ? 4 : 3));
            continue;
        }
        if (s.type == 0) { if (s.how == 0) sum += co_await stepRes<int>(s); else { auto r = stepRes<int>(s); sum += s.how == 1 ? co_await r : co_await std::move(r); } }
        else if (s.type == 1) { if (s.how == 0) co_await stepRes<void>(s); else { auto r = stepRes<void>(s); co_await r; } }
        else { if (s.how == 0) { MVal m = co_await stepRes<MVal>(s); sum += m.get(); } else { auto r = stepRes<MVal>(s); MVal m = co_await std::move(r); sum += m.get(); } }
        ev(s.id * 10 + 3);
    }
    if (p.end == 1) throwKind(p.ek, p.v);
    if (p.end == 2) co_return endRes<T>(p, sum);
    if constexpr (std::is_void_v<T>) co_return Ok(); else co_return Ok(Mk<T>::mk(sum + p.v, nullptr));
}
template<class T> result<T> endRes(RProg& p, int sum)
{
    if (p.end == 2) { std::exception_ptr e; try { throwKind(p.ek, p.v); } catch (...) { e = std::current_exception(); } return Err(e); }
    if constexpr (std::is_void_v<T>) return Ok(); else return Ok(Mk<T>::mk(sum + p.v, nullptr));
}
template<class T> result<T> rMac(RProg& p)
{
    MC_BEGIN(result<T>, &p, i = size_t(0), sum = 0, x = 0, m = MVal(), l = std::unique_ptr<Local>(), ri = result<int>(), rv = result<void>(), rm = result<MVal>());
    for (; i < p.st.size(); ++i)
    {
        l = nullptr; l = std::make_unique<Local>(p.st[i].id);
        if (p.st[i].caught)
        {
            if (p.st[i].type == 0) { MC_AWAIT_TRY(ri, stepRes<int>(p.st[i])); if (ri) sum += ri.value(); ev(p.st[i].id * 10 + (ri ? 3 : 4)); }
            else if (p.st[i].type == 1) { MC_AWAIT_TRY(rv, stepRes<void>(p.st[i])); ev(p.st[i].id * 10 + (rv ? 3 : 4)); }
            else { MC_AWAIT_TRY(rm, stepRes<MVal>(p.st[i])); if (rm) sum += rm.value().get(); ev(p.st[i].id * 10 + (rm ? 3 : 4)); }
            continue;
        }
        if (p.st[i].type == 0) { if (p.st[i].how == 0) MC_AWAIT_SET(x, stepRes<int>(p.st[i])); else { ri = stepRes<int>(p.st[i]); MC_AWAIT_SET(x, ri); } sum += x; }
        else if (p.st[i].type == 1) { if (p.st[i].how == 0) MC_AWAIT(stepRes<void>(p.st[i])); else { rv = stepRes<void>(p.st[i]); MC_AWAIT(rv); } }
        else { if (p.st[i].how == 0) MC_AWAIT_SET(m, stepRes<MVal>(p.st[i])); else { rm = stepRes<MVal>(p.st[i]); MC_AWAIT_SET(m, std::move(rm)); } sum += m.get(); }
        ev(p.st[i].id * 10 + 3);
    }
    l = nullptr;
    if (p.end == 1) throwKind(p.ek, p.v);
    MC_RETURN(endRes<T>(p, sum));
    MC_END();
}
struct ROut { Seen s; int v = 0; };
static ROut model(RProg& p, std::vector<int>& t)
{
    int sum = 0;
    for (auto& s : p.st)
    {
        t.push_back(s.id * 10 + 1); ROut o;
        if (s.child) o = model(*s.child, t); else { t.push_back(s.id * 10); if (!s.ok) o.s = { s.ek, s.v }; else o.v = s.v; }
        if (o.s.kind >= 0)
        {
            if (!s.caught) { t.push_back(s.id * 10 + 2); return o; }
            t.push_back(s.id * 10 + 4);
        }
        else { if (s.type != 1) sum += o.v; t.push_back(s.id * 10 + 3); }
        t.push_back(s.id * 10 + 2);
    }
    ROut o; if (p.end) o.s = { p.ek, p.v }; else o.v = sum + p.v;
    return o;
}
static std::unique_ptr<RProg> genProg(pbt::Gen& g, int depth, int type, int& id, int& total)
{
    auto p = std::make_unique<RProg>(); p->type = type; p->macro = g.b(); p->end = (int)g.biased(3, 1, 3); p->v = (int)g.u(100); p->ek = (int)g.u(exk::n); int n = (int)g.u(5);
    g.note("%*s%s coroutine returning result<%s> {", depth * 2, "", p->macro ? "macro" : "native", (const char*[]) { "int", "void", "MVal" }[type]);
    for (int i = 0; i < n && total < 25; ++i)
    {
        auto& s = p->st.emplace_back(); s.id = ++id; ++total; s.type = (int)g.u(3); s.how = (int)g.u(3); s.caught = g.chance(1, 4); s.ok = !g.chance(1, 5); s.v = (int)g.u(100); s.ek = (int)g.u(exk::n);
        g.note("%*sawait %s %d%s", depth * 2 + 2, "", s.ok ? "value" : "failure", s.v, s.caught ? ", failure captured" : "");
        if (depth < 4 && g.chance(1, 4)) s.child = genProg(g, depth + 1, s.type, id, total);
    }
    g.note("%*s} %s", depth * 2, "", (const char*[]) { "returns", "throws", "returns a failure" }[p->end]);
    return p;
}
PBT_SECTION(result_coroutines, 200000, 6000000)
{
    int id = 0, total = 0, type = (int)g.u(3); auto p = genProg(g, 0, type, id, total); std::vector<int> want; ROut o = model(*p, want); RTrace tr; TR = &tr; LiveCheck lc;
    Seen s; int v = o.v;
    auto look = [&](auto r) { using R = decltype(r); if (r.has_error()) s = seenP(r.error()); else if constexpr (!std::is_void_v<typename R::value_type>) v = rd(r); };
    if (type == 0) look(rAny<int>(*p)); else if (type == 1) look(rAny<void>(*p)); else look(rAny<MVal>(*p));
    REQUIRE(s == o.s, "the coroutine's result is %s (%d/%d), expected %s (%d/%d)", s.kind < 0 ? "a value" : "an error", s.kind, s.v, o.s.kind < 0 ? "a value" : "an error", o.s.kind, o.s.v);
    if (s.kind < 0) REQUIRE(v == o.v, "the coroutine returned %d, expected %d", v, o.v);
    for (size_t i = 0; i < std::max(want.size(), tr.ev.size()); ++i) REQUIRE(i < want.size() && i < tr.ev.size() && want[i] == tr.ev[i], "event %zu is %d, expected %d (step*10 + 0 made, 1 entered, 2 left, 3 value, 4 captured failure)", i, i < tr.ev.size() ? tr.ev[i] : -1, i < want.size() ? want[i] : -1);
    lc.done();
    if (total >= 2) g.nontrivial(); if (o.s.kind >= 0) g.label("failure propagated");
}

// ------------------------------------------------------------------ try-await captures a failure wherever the await produces it
// stages: 0 making the awaitable, 1 operator co_await, 2 await_ready, 3 await_suspend, 4 await_resume, 5 none
struct TStep { int id, stage, type, v, ek; bool susp, tmp; };
struct TProg { std::vector<TStep> st; std::coroutine_handle<> sh; macoro::coroutine_handle<> mh; };
static void tEv(const TStep& s, int what) { ev(s.id * 10 + what); }
template<class T> struct TAwaiter
{
    TProg& p; TStep& s; TAwaiter(TProg& p, TStep& s) : p(p), s(s) { ++Track::live; tEv(s, 2); } TAwaiter(const TAwaiter&) = delete; ~TAwaiter() { --Track::live; tEv(s, 8); }
    bool await_ready() { tEv(s, 3); if (s.stage == 2) throwKind(s.ek, s.v); return !s.susp && s.stage != 3; }
    template<class P> void await_suspend(std::coroutine_handle<P> h) { tEv(s, 4); if (s.stage == 3) throwKind(s.ek, s.v); p.sh = h; }
    template<class P> void await_suspend(macoro::coroutine_handle<P> h) { tEv(s, 4); if (s.stage == 3) throwKind(s.ek, s.v); p.mh = h; }
    T await_resume() { tEv(s, 5); if (s.stage == 4) throwKind(s.ek, s.v); if constexpr (!std::is_void_v<T>) return Mk<T>::mk(s.v, nullptr); }
};
template<class T> struct TAble { TProg& p; TStep& s; TAble(TProg& p, TStep& s) : p(p), s(s) { ++Track::live; tEv(s, 1); } TAble(const TAble&) = delete; ~TAble() { --Track::live; tEv(s, 9); } TAwaiter<T> operator co_await() { if (s.stage == 1) throwKind(s.ek, s.v); return { p, s }; } };
template<class T> static TAble<T> tMk(TProg& p, TStep& s) { tEv(s, 0); if (s.stage == 0) throwKind(s.ek, s.v); return { p, s }; }
template<class T> static task<void> tNat1(TProg& p, TStep& s, result<T>& r)
{
    std::exception_ptr e;
    try { if constexpr (std::is_void_v<T>) { co_await tMk<T>(p, s); r = Ok(); } else r = Ok(co_await tMk<T>(p, s)); } catch (...) { e = std::current_exception(); }
    if (e) r = Err(e);
}
template<class T> static void tLook(TStep& s, const result<T>& r)
{
    vs::Quiet q;
    REQUIRE(r.has_error() == (s.stage < 5), "step %d (fails at stage %d): the captured result holds %s", s.id, s.stage, r.has_error() ? "an error" : "a value");
    if (s.stage < 5) { auto x = seenP(r.error()); REQUIRE(x == (Seen{ s.ek, s.v }), "step %d (fails at stage %d): captured exception %d/%d, thrown %d/%d", s.id, s.stage, x.kind, x.v, s.ek, s.v); }
    else if constexpr (!std::is_void_v<T>) REQUIRE(Mk<T>::rd(r.value()) == s.v, "step %d: captured value %d, expected %d", s.id, Mk<T>::rd(r.value()), s.v);
}
static task<int> tMac(TProg& p)
{
    MC_BEGIN(task<int>, &p, i = size_t(0), ri = result<int>(), rv = result<void>(), rm = result<MVal>());
    for (; i < p.st.size(); ++i)
    {
        if (p.st[i].type == 0) { MC_AWAIT_TRY(ri, tMk<int>(p, p.st[i])); tLook<int>(p.st[i], ri); }
        else if (p.st[i].type == 1) { MC_AWAIT_TRY(rv, tMk<void>(p, p.st[i])); tLook<void>(p.st[i], rv); }
        else { MC_AWAIT_TRY(rm, tMk<MVal>(p, p.st[i])); tLook<MVal>(p.st[i], rm); }
        tEv(p.st[i], 7);
    }
    MC_RETURN((int)i);
    MC_END();
}
static task<int> tNat(TProg& p)
{
    result<int> ri; result<void> rv; result<MVal> rm; size_t i = 0;
    for (; i < p.st.size(); ++i)
    {
        auto& s = p.st[i];
        if (s.type == 0) { co_await tNat1<int>(p, s, ri); tLook<int>(s, ri); } else if (s.type == 1) { co_await tNat1<void>(p, s, rv); tLook<void>(s, rv); } else { co_await tNat1<MVal>(p, s, rm); tLook<MVal>(s, rm); }
        tEv(s, 7);
    }
    co_return (int)i;
}
static int tDrive(TProg& p, task<int> (*f)(TProg&), RTrace& tr)
{
    TR = &tr; p.sh = {}; p.mh = {}; int got = -1;
    { auto t = f(p); eager_task<int> e = std::move(t) | make_eager(); for (;;) { if (p.sh) std::exchange(p.sh, {}).resume(); else if (p.mh) { auto h = p.mh; p.mh = {}; h.resume(); } else break; ev(-1); } got = sync_wait(std::move(e)); }
    return got;
}
PBT_SECTION(try_await_anywhere, 60000, 2000000)
{
    TProg p; int n = 1 + (int)g.u(6);
    for (int i = 0; i < n; ++i)
    {
        TStep s{ i + 1, g.chance(1, 3) ? 5 : (int)g.u(5), (int)g.u(3), (int)g.u(100), (int)g.u(exk::n), g.b(), false }; p.st.push_back(s);
        g.note("await %d of type %s, %s%s", s.id, (const char*[]) { "int", "void", "MVal" }[s.type], (const char*[]) { "making it throws", "operator co_await throws", "await_ready throws", "await_suspend throws", "await_resume throws", "returns" }[s.stage], s.susp ? ", suspends" : "");
    }
    LiveCheck lc; RTrace a, b; int x = tDrive(p, tNat, a), y = tDrive(p, tMac, b);
    REQUIRE(x == n && y == n, "the coroutine finished %d (native) and %d (macro) of %d steps", x, y, n);
    for (size_t i = 0; i < std::max(a.ev.size(), b.ev.size()); ++i) REQUIRE(i < a.ev.size() && i < b.ev.size() && a.ev[i] == b.ev[i], "event %zu is %d, with native try/co_await/catch it is %d", i, i < b.ev.size() ? b.ev[i] : -2, i < a.ev.size() ? a.ev[i] : -2);
    lc.done(); if (n > 1) g.nontrivial();
}

// ------------------------------------------------------------------ wrapping lvalues, and awaiting a wrapper more than once
template<class R> static void lvSee(R&& r, lv::Seen& s) { if (r.has_error()) { try { std::rethrow_exception(r.error()); } catch (...) { s.err(); } } else { s.kind = 1; if constexpr (!std::is_void_v<typename std::remove_cvref_t<R>::value_type>) s.v = lv::rd(r.value()); } }
template<class W> static Own lvNat(W& w, lv::Seen& s) { auto r = co_await w; lvSee(r, s); }
template<class W> static Own lvNatR(W& w, lv::Seen& s) { auto r = co_await std::move(w); lvSee(r, s); }
struct SeeFn { lv::Seen* s; template<class R> void operator()(R&& r) { lvSee(r, *s); } };
template<class W> static eager_task<> lvMac(W& w_, lv::Seen& s_) { MC_BEGIN(eager_task<>, w = &w_, s = &s_); MC_AWAIT_FN(SeeFn{ s }, *w); MC_END(); }
template<class W> static eager_task<> lvMacR(W& w_, lv::Seen& s_) { MC_BEGIN(eager_task<>, w = &w_, s = &s_); MC_AWAIT_FN(SeeFn{ s }, std::move(*w)); MC_END(); }
template<class T> static void lvOne(pbt::Gen& g, bool& n)
{
    std::vector<std::function<void()>> parked; lv::World w{ &parked };
    int kind = (int)g.u(4), value = (int)g.u(1000); lv::Core<T> c{ &w, Val(value), value, g.chance(1, 3), g.b(), (int)g.u(exk::n) }; int ek = c.ek;
    static const char* F[] = { "wrap(a), by reference", "a | wrap(), by reference", "wrap of a copy", "copy | wrap()", "wrap of a task", "task | wrap()", "wrap of a wrapped task" };
    int form = (int)g.u(7), uses = (int)g.u(4); bool susp = c.susp; bool throws = c.throws;
    if constexpr (std::is_same_v<T, MVal>) if (form >= 4) uses = 0; // a result of a reference holds a copy
    g.note("%s of %s, %s%s, awaited %d time(s) as an lvalue", F[form], lv::kindName[kind], throws ? "throws" : "returns", susp ? " after a suspension" : "", uses); g.label(F[form]);
    lv::with<T>(kind, std::move(c), [&](auto& a) {
        using A = std::remove_reference_t<decltype(a)>;
        auto drive = [&] { while (parked.size()) { auto k = std::move(parked.back()); parked.pop_back(); k(); } };
        auto ok = [&](lv::Seen s, const char* how) { REQUIRE(s.kind == (throws ? 2 : 1) && (s.kind == 1 && std::is_void_v<T> || s.v == value) && (s.kind == 1 || s.ek == ek), "%s awaited %s gave outcome %d with %d, expected %d with %d", F[form], how, s.kind, s.v, throws ? 2 : 1, value); };
        auto run = [&](auto&& w2, bool once) {
            for (int i = 0; i < uses; ++i)
            {
                long st = w.starts; lv::Seen s; int way = g.u(susp && !(once && i) ? 2 : 3);
                if constexpr (!(std::is_same_v<T, MVal> && requires { w2.m_awaitable.when_ready(); }))
                {
                    g.note("  lvalue %s", way == 0 ? "native" : way == 1 ? "macro" : "sync_wait"); g.count("lvalue awaits of a wrapper");
                    if (way == 0) { Own o = lvNat(w2, s); o.start(); drive(); REQUIRE(o.done(), "never finished"); o.rethrow(); }
                    else if (way == 1) { auto t = lvMac(w2, s); drive(); REQUIRE(t.is_ready(), "never finished"); sync_wait(std::move(t)); }
                    else lvSee(sync_wait(w2), s);
                    ok(s, "as an lvalue"); REQUIRE(w.starts - st == (once && i ? 0 : 1), "an await started the work %ld times", w.starts - st);
                }
            }
            lv::Seen s;
            if (g.b()) { Own o = lvNatR(w2, s); o.start(); drive(); REQUIRE(o.done(), "never finished"); o.rethrow(); } else { auto t = lvMacR(w2, s); drive(); REQUIRE(t.is_ready(), "never finished"); sync_wait(std::move(t)); }
            ok(s, "as an rvalue");
        };
        switch (form)
        {
        case 0: run(wrap(a), false); break;
        case 1: run(a | wrap(), false); break;
        case 2: run(wrap(A(a)), false); break;
        case 3: run(A(a) | wrap(), false); break;
        case 4: run(wrap(make_task(a)), true); break;
        case 5: run(make_task(a) | wrap(), true); break;
        default: { auto inner = [](auto t) -> task<T> { auto r = co_await wrap(std::move(t)); if (r.has_error()) std::rethrow_exception(r.error()); if constexpr (!std::is_void_v<T>) co_return std::move(r.value()); }; run(wrap(inner(make_task(a))), true); }
        }
        REQUIRE(a.pay.get() == value, "wrapping took the payload of an lvalue");
        lv::Seen s; a.susp = false; lvSee(sync_wait(wrap(a)), s); ok(s, "again");
    });
    REQUIRE(w.badStarts == 0, "an awaitable without its payload was awaited"); REQUIRE(w.ends == w.starts, "the work ended %ld times and started %ld times", w.ends, w.starts); if (uses >= 1) n = true;
}
PBT_SECTION(wrapped_lvalues, 100000, 2000000)
{
    LiveCheck lc; bool n = false;
    switch (g.u(4)) { case 0: lvOne<int>(g, n); break; case 1: lvOne<void>(g, n); break; case 2: lvOne<Val>(g, n); break; default: lvOne<MVal>(g, n); }
    lc.done(); if (n) g.nontrivial();
}
