#include "common.h"
#include "vsched_on.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "macoro/sync_wait.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;

struct Body { int nSusp; bool throws; int value; int* ref; XEv* ev; int ek = 0; Mark mark; int bodyDone = 0; bool macro; };

template<class T> eager_task<T> natBody(Body& b)
{
    for (int i = 0; i < b.nSusp; ++i) co_await *b.ev;
    b.mark.set(); { vs::Quiet q; ++b.bodyDone; }
    if (b.throws) exk::raise(b.ek, b.value);
    if constexpr (std::is_void_v<T>) co_return; else co_return Mk<T>::mk(b.value, b.ref);
}
template<class T> eager_task<T> macBody(Body& b)
{
    MC_BEGIN(eager_task<T>, &b, i = 0);
    for (i = 0; i < b.nSusp; ++i) MC_AWAIT(*b.ev);
    b.mark.set(); { vs::Quiet q; ++b.bodyDone; }
    if (b.throws) exk::raise(b.ek, b.value);
    if constexpr (!std::is_void_v<T>) MC_RETURN((Mk<T>::mk(b.value, b.ref)));
    MC_END();
}

struct Res { int resumed = 0; int kind = 0; int v = 0; int ek = 0; bool wrongRef = false; int bodyAtResume = 0; };

template<class T> Drv awaiter(eager_task<T>* t, Body& b, Res& r, int mode)
{
    try
    {
        if (mode == 2) { co_await t->when_ready(); b.mark.see("when_ready"); { vs::Quiet q; r.bodyAtResume = b.bodyDone; } }
        if constexpr (std::is_void_v<T>)
        {
            if (mode == 1) co_await std::move(*t); else co_await *t;
            vs::Quiet q; r.kind = 1; r.v = b.value;
        }
        else if (mode == 1)
        {
            decltype(auto) x = co_await std::move(*t);
            vs::Quiet q; r.kind = 1; r.v = Mk<T>::rd(x); if constexpr (std::is_reference_v<T>) r.wrongRef = &x != b.ref;
        }
        else
        {
            decltype(auto) x = co_await *t;
            vs::Quiet q; r.kind = 1; r.v = Mk<T>::rd(x); if constexpr (std::is_reference_v<T>) r.wrongRef = &x != b.ref;
        }
    }
    catch (...) { vs::Quiet q; auto e = exk::current(); r.kind = 2; r.v = e.v; r.ek = e.kind; }
    b.mark.see("the await"); { vs::Quiet q; ++r.resumed; if (!r.bodyAtResume) r.bodyAtResume = b.bodyDone; }
    delete t;
}
template<class T> task<void> mawaiter(eager_task<T>* t, Body& b, Res& r)
{
    MC_BEGIN(task<void>, t, &b, &r);
    MC_AWAIT(t->when_ready()); b.mark.see("when_ready");
    { vs::Quiet q; r.bodyAtResume = b.bodyDone; ++r.resumed; r.kind = b.throws ? 2 : 1; r.v = b.value; r.ek = b.ek; }
    delete t;
    MC_END();
}
static Drv drive(task<void> t) { co_await t; }

template<class T> void rendezvous(pbt::Gen& g)
{
    Body b; b.nSusp = 1 + (int)g.biased(3, 1, 3); b.throws = g.chance(1, 4); b.ek = (int)g.biased(exk::n, 1, 2); b.value = (int)g.u(1000); int obj = b.value; b.ref = &obj; b.macro = g.b();
    XEv ev; b.ev = &ev;
    int mode = g.weighted({ 3, 3, 2, 2, 2, 2, 1 }); // 0 lvalue 1 rvalue 2 when_ready+lvalue 3 poll then await 4 poll then drop 5 macro awaiter 6 blocking
    if (std::is_reference_v<T> && b.macro) b.macro = false; // macro return of references is covered by C04
    Res r; int polls = 0; bool dropped = false; uint64_t sw = 0;
    static const char* M[] = { "await lvalue", "await rvalue", "when_ready then await", "poll is_ready then await", "poll is_ready then drop", "when_ready from macro coroutine", "sync_wait" };
    g.note("eager task (%s body, %d suspension(s), %s) ; other thread: %s", b.macro ? "macro" : "native", b.nSusp, b.throws ? "throws" : "returns", M[mode]);
    vs::run(g, [&] {
        auto* t = new eager_task<T>(b.macro ? macBody<T>(b) : natBody<T>(b));
        REQUIRE(!t->is_ready(), "a suspended task reports ready");
        std::vs_thread A([&] { for (int i = 0; i < b.nSusp; ++i) ev.fire(); });
        std::vs_thread B([&] {
            if (mode == 3 || mode == 4)
            {
                while (true) { bool d = t->is_ready(); ++polls; if (d) break; vs::point("poll"); }
                b.mark.see("is_ready");
                { vs::Quiet q; REQUIRE(b.bodyDone == 1, "reported ready before the body finished"); }
                if (mode == 4) { delete t; dropped = true; return; }
            }
            if (mode == 6)
            {
                r.kind = 1; r.v = b.value;
                try { if constexpr (std::is_void_v<T>) sync_wait(*t); else r.v = Mk<T>::rd(sync_wait(*t)); }
                catch (...) { vs::Quiet q; auto e = exk::current(); r.kind = 2; r.v = e.v; r.ek = e.kind; }
                vs::Quiet q; r.resumed = 1; r.bodyAtResume = b.bodyDone;
                delete t;
            }
            else if (mode == 5) drive(mawaiter<T>(t, b, r));
            else awaiter<T>(t, b, r, mode);
        });
        A.join(); B.join();
        sw = vs::switches();
    });
    REQUIRE(b.bodyDone == 1, "the body ran to its end %d times", b.bodyDone);
    if (!dropped)
    {
        REQUIRE(r.resumed == 1, "the awaiting coroutine completed %d times", r.resumed);
        REQUIRE(r.bodyAtResume == 1, "resumed before the body finished");
        REQUIRE(r.kind == (b.throws ? 2 : 1), "outcome kind %d", r.kind);
        if (b.throws) REQUIRE(r.ek == b.ek, "an exception of kind %d, thrown was one of kind %d", r.ek, b.ek);
        REQUIRE(r.v == b.value, "value %d, expected %d", r.v, b.value);
        REQUIRE(!r.wrongRef, "a different object was returned");
    }
    if (sw > 4) g.nontrivial();
    g.label(M[mode]);
}
PBT_SECTION(eager_schedules, 120000, 4000000)
{
    LiveCheck lc;
    switch (g.u(5))
    {
    case 0: rendezvous<int>(g); break;
    case 1: rendezvous<void>(g); break;
    case 2: rendezvous<MVal>(g); break;
    case 3: rendezvous<Val>(g); break;
    case 4: rendezvous<int&>(g); break;
    }
    lc.done();
}

// A chain: task i awaits task i-1; every link is created on its own thread.
static eager_task<int> link0(XEv& e, int& n) { co_await e; { vs::Quiet q; ++n; } co_return 1; }
static eager_task<int> linkN(eager_task<int> in, int& n, bool mv)
{
    int v = 0;
    if (mv) v = co_await std::move(in); else v = co_await in;
    { vs::Quiet q; ++n; }
    co_return v + 1;
}
static eager_task<int> linkM(eager_task<int> in, int& n)
{
    MC_BEGIN(eager_task<int>, in = std::move(in), &n, v = int{});
    MC_AWAIT_SET(v, std::move(in));
    { vs::Quiet q; ++n; }
    MC_RETURN(v + 1);
    MC_END();
}
static Drv last(eager_task<int> t, int& out, int& cnt) { int v = co_await std::move(t); vs::Quiet q; out = v; ++cnt; }
PBT_SECTION(eager_chain, 60000, 2000000)
{
    int depth = 1 + (int)g.u(4); int kind[8]; for (int i = 0; i < depth; ++i) kind[i] = (int)g.u(3);
    XEv ev; int n = 0, out = 0, cnt = 0; uint64_t sw = 0;
    g.note("chain of %d eager tasks, one thread per link", depth);
    vs::run(g, [&] {
        std::vector<eager_task<int>> ts(depth + 1);
        std::vector<Gate> gates(depth + 1);
        ts[0] = link0(ev, n); gates[0].release();
        std::vector<std::vs_thread> th;
        th.emplace_back([&] { ev.fire(); });
        for (int i = 0; i < depth; ++i) th.emplace_back([&, i] {
            gates[i].wait();
            if (i == depth - 1) last(std::move(ts[i]), out, cnt);
            else { ts[i + 1] = kind[i] == 2 ? linkM(std::move(ts[i]), n) : linkN(std::move(ts[i]), n, kind[i] == 1); gates[i + 1].release(); }
        });
        for (auto& t : th) t.join();
        sw = vs::switches();
    });
    REQUIRE(n == depth, "%d of %d bodies ran", n, depth);
    REQUIRE(cnt == 1, "the last awaiter completed %d times", cnt);
    REQUIRE(out == depth, "value %d, expected %d", out, depth);
    if (depth > 1 && sw > (uint64_t)depth * 2) g.nontrivial();
}

// ---------------------------------------------------------------- histories of task objects, one thread
// Task objects are created, moved, assigned over, polled, awaited (before and
// after completion, any number of times once complete) and destroyed, against
// a model of which computation each object owns.
struct EComp
{
    Body b; XEv ev; int obj = 0;
    std::shared_ptr<int> local = std::make_shared<int>(0); // frame local
    int fired = 0, ran = 0; bool taken = false;
    bool done() const { return fired == b.nSusp; }
    bool waited = false;
};
template<class T> eager_task<T> emNat(EComp& c, std::shared_ptr<int> keep)
{
    ++c.ran;
    for (int i = 0; i < c.b.nSusp; ++i) co_await c.ev;
    ++c.b.bodyDone;
    if (c.b.throws) exk::raise(c.b.ek, c.b.value);
    if constexpr (std::is_void_v<T>) co_return; else co_return Mk<T>::mk(c.b.value, &c.obj);
}
template<class T> eager_task<T> emMac(EComp& c, std::shared_ptr<int> k)
{
    MC_BEGIN(eager_task<T>, &c, keep = std::move(k), i = 0);
    ++c.ran;
    for (i = 0; i < c.b.nSusp; ++i) MC_AWAIT(c.ev);
    ++c.b.bodyDone;
    if (c.b.throws) exk::raise(c.b.ek, c.b.value);
    if constexpr (!std::is_void_v<T>) MC_RETURN((Mk<T>::mk(c.b.value, &c.obj)));
    MC_END();
}
enum { AwL, AwR, AwReady };
template<class T> Drv emAwait(eager_task<T>* t, EComp* c, Res& r, int mode)
{
    try
    {
        if (mode == AwReady) { co_await t->when_ready(); r.kind = 1; r.v = -7; }
        else if constexpr (std::is_void_v<T>) { if (mode == AwR) co_await std::move(*t); else co_await *t; r.kind = 1; }
        else if (mode == AwR) { decltype(auto) x = co_await std::move(*t); r.kind = 1; r.v = Mk<T>::rd(x); if constexpr (std::is_reference_v<T>) r.wrongRef = &x != &c->obj; }
        else { decltype(auto) x = co_await *t; r.kind = 1; r.v = Mk<T>::rd(x); if constexpr (std::is_reference_v<T>) r.wrongRef = &x != &c->obj; }
    }
    catch (broken_promise&) { r.kind = 3; }
    catch (...) { auto e = exk::current(); r.kind = 2; r.v = e.v; r.ek = e.kind; }
    ++r.resumed;
}
template<class T> void eagerModel(pbt::Gen& g)
{
    constexpr int S = 3; constexpr bool val = !std::is_void_v<T> && !std::is_reference_v<T>;
    struct Pend { EComp* c; int mode; std::unique_ptr<Res> r; };
    std::vector<std::unique_ptr<EComp>> comps; std::vector<Pend> pend;
    EComp* own[S] = {}; int awaitsDone = 0, moves = 0, late = 0;
    auto check = [&](EComp* c, int mode, Res& r) {
        REQUIRE(r.resumed == 1, "the awaiting coroutine completed %d times after completion", r.resumed);
        if (!c) { REQUIRE(r.kind == (mode == AwReady ? 1 : 3), "awaiting an empty task: outcome kind %d", r.kind); return; }
        if (mode == AwReady) { REQUIRE(r.kind == 1, "when_ready reported an outcome of kind %d", r.kind); return; }
        REQUIRE(r.kind == (c->b.throws ? 2 : 1), "outcome kind %d", r.kind);
        if (c->b.throws) { REQUIRE(r.ek == c->b.ek && r.v == c->b.value, "a different exception arrived (kind %d value %d)", r.ek, r.v); return; }
        if constexpr (!std::is_void_v<T>)
        {
            bool movable = val && !std::is_same_v<T, int>;
            if (!(movable && c->taken)) REQUIRE(r.v == c->b.value, "value %d, expected %d", r.v, c->b.value);
            REQUIRE(!r.wrongRef, "a different object was returned");
            if (mode == AwR && movable) c->taken = true;
        }
    };
    {
        std::optional<eager_task<T>> ts[S]; for (auto& t : ts) t.emplace();
        auto waited = [&](int s) { return own[s] && own[s]->waited && !own[s]->done(); };
        auto drop = [&](EComp* c) { if (c) { REQUIRE(c->local.use_count() == 1, "the task object was destroyed but its coroutine lives on"); } };
        auto alive = [&] { for (int s = 0; s < S; ++s) if (own[s] && !own[s]->done()) REQUIRE(own[s]->local.use_count() == 2, "an unfinished computation whose task object lives was destroyed"); };
        int n = 4 + (int)g.u(24);
        for (int op = 0; op < n; ++op)
        {
            int s = (int)g.u(S), d = (int)g.u(S);
            switch (g.weighted({ 4, 3, 3, 3, 5, 5, 2, 1 }))
            {
            case 0: // create into s
            {
                if (waited(s)) break;
                comps.push_back(std::make_unique<EComp>()); auto* c = comps.back().get();
                c->b.nSusp = (int)g.u(3); c->b.throws = g.chance(1, 4); c->b.ek = (int)g.biased(exk::n, 1, 2); c->b.value = 1 + (int)g.u(1000); c->obj = c->b.value; c->b.macro = !std::is_reference_v<T> && g.b();
                g.note("s%d = new task (%s, %d suspension(s), %s)", s, c->b.macro ? "macro" : "native", c->b.nSusp, c->b.throws ? "throws" : "returns");
                *ts[s] = c->b.macro ? emMac<T>(*c, c->local) : emNat<T>(*c, c->local);
                REQUIRE(c->ran == 1, "the body of an eager task was started %d times by the call", c->ran);
                REQUIRE(c->b.bodyDone == (c->b.nSusp == 0), "the body did not run up to its first suspension");
                drop(own[s]); own[s] = c;
                break;
            }
            case 1: // move assign
                if (s != d && waited(d)) break;
                g.note("s%d = move(s%d)", d, s); ++moves;
                { auto& src = *ts[s]; *ts[d] = std::move(src); }
                if (s != d) { drop(own[d]); own[d] = std::exchange(own[s], nullptr); }
                break;
            case 2: // move construct
                if (waited(d) || s == d) break;
                g.note("s%d constructed from move(s%d)", d, s); ++moves;
                ts[d].reset(); drop(own[d]); ts[d].emplace(std::move(*ts[s])); own[d] = std::exchange(own[s], nullptr);
                break;
            case 3:
            {
                bool want = own[s] && own[s]->done();
                REQUIRE(ts[s]->is_ready() == want, "is_ready() of s%d is %d, expected %d", s, (int)ts[s]->is_ready(), (int)want);
                REQUIRE((bool)ts[s]->handle() == (own[s] != nullptr), "handle() of s%d", s);
                break;
            }
            case 4: // await
            {
                int mode = (int)g.u(3); EComp* c = own[s];
                if (waited(s)) break; // one awaiter at a time while it is not complete
                g.note("await s%d (%s)%s", s, mode == AwL ? "lvalue" : mode == AwR ? "rvalue" : "when_ready", !c ? " empty" : c->done() ? " complete" : " not complete");
                auto r = std::make_unique<Res>();
                emAwait<T>(&*ts[s], c, *r, mode);
                if (!c || c->done()) { check(c, mode, *r); ++awaitsDone; if (c && c->waited) ++late; if (c) c->waited = true; }
                else { REQUIRE(r->resumed == 0, "an await of an unfinished task completed"); c->waited = true; pend.push_back({ c, mode, std::move(r) }); }
                break;
            }
            case 5: // fire some live computation
            {
                if (!own[s] || own[s]->done()) break;
                auto* c = own[s]; REQUIRE(c->ev.parked, "the body is not suspended where it should be");
                g.note("advance s%d", s); ++c->fired;
                auto k = std::move(c->ev.k); c->ev.k = nullptr; c->ev.parked = false; k();
                REQUIRE(c->b.bodyDone == (c->done() ? 1 : 0), "the body finished %d times", c->b.bodyDone);
                for (size_t i = 0; i < pend.size();) if (pend[i].c == c && c->done()) { check(c, pend[i].mode, *pend[i].r); ++awaitsDone; pend.erase(pend.begin() + i); } else ++i;
                break;
            }
            case 6: // destroy, leave a default constructed one
                if (waited(s)) break;
                g.note("destroy s%d", s); ts[s].reset(); drop(own[s]); own[s] = nullptr; ts[s].emplace();
                break;
            case 7: g.note("s%d = {}", s); if (waited(s)) break; *ts[s] = eager_task<T>{}; drop(own[s]); own[s] = nullptr; break;
            }
            alive();
            for (auto& p : pend) REQUIRE(p.r->resumed == 0, "an await of an unfinished task completed");
        }
        // finish what somebody waits for, then destroy everything
        for (int s = 0; s < S; ++s) while (waited(s)) { auto* c = own[s]; ++c->fired; auto k = std::move(c->ev.k); c->ev.k = nullptr; c->ev.parked = false; k(); }
        for (auto& p : pend) check(p.c, p.mode, *p.r);
    }
    for (auto& c : comps) REQUIRE(c->local.use_count() == 1, "a coroutine outlived every task object");
    if (awaitsDone >= 2 && moves >= 1) g.nontrivial();
    if (late) g.label("awaited again after completion");
}
PBT_SECTION(eager_model, 400000, 8000000)
{
    LiveCheck lc;
    switch (g.u(5))
    {
    case 0: eagerModel<int>(g); break;
    case 1: eagerModel<void>(g); break;
    case 2: eagerModel<MVal>(g); break;
    case 3: eagerModel<Val>(g); break;
    case 4: eagerModel<int&>(g); break;
    }
    lc.done();
}
