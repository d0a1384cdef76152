#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include <deque>
#include "macoro/result.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;
// C04: the same generated body as native and as macro coroutine, run against the same generated
// environment, gives the same events. A third run mixes the two kinds.

struct Event { const char* what; int a; long b; bool operator==(const Event& o) const { return !strcmp(what, o.what) && a == o.a && b == o.b; } };
struct Fn; 
struct Op { int id = 0, kind = 0, v = 0; int ready = 0; int stage = 0; int via = 0; int sub = 0; bool nopark = false; Fn* child = nullptr; };
struct Fn { int id = 0; std::vector<Op> ops; Op endOp; int end = 0; Op init, fin, ableOp; bool voidFn = false; bool native = true; int rethrow = 0; bool alive = false; };
enum { OK_ = 0, T_MAKE, T_CO, T_READY, T_SUSPEND, T_RESUME, T_TRANSFORM, T_YIELD }; // where an operation throws
struct Env { std::vector<Event> tr; std::function<void()> k; int mode = 0; int pendings = 0; };
static Env* E;
static void ev(const char* w, int a, long b = 0) { E->tr.push_back({ w, a, b }); }
static void evEx(const char* w) { auto s = exk::current(); ev(w, s.kind, s.v); }
static void boom(const Op& o, int stage) { if (o.stage == stage) { ev("throws", o.id, stage); exk::raise(o.v % exk::n, o.v); } }

template<class H> static void promiseOf(H h, const Op& o);
static Val theVal(0);
// parks a coroutine: via selects the form of handle it is resumed through
template<class H> static void park(H h, const Op& o)
{
    promiseOf(h, o);
    if (o.nopark) return;
    ++E->pendings;
    if constexpr (requires { h.std_cast(); })
    {
        if (o.via == 1) { coroutine_handle<> e(h); E->k = [e] { e.resume(); }; }
        else if (o.via == 2) { auto s = h.std_cast(); E->k = [s] { s.resume(); }; }
        else E->k = [h] { h.resume(); };
    }
    else if (o.via == 1) { coroutine_handle<> e(h); E->k = [e] { e.resume(); }; }
    else if (o.via == 2) { std::coroutine_handle<> e(h); E->k = [e] { e.resume(); }; }
    else E->k = [h] { h.resume(); };
}
// S: 0 void(H) 1 bool(H) 2 handle(H) 3 void(std) 4 bool(std) 5 handle(std) 6 standard handle(H)
template<class T, int S, bool NE = false> struct Aw
{
    Op o; long canary = 77;
    explicit Aw(const Op& op) : o(op) { boom(o, T_MAKE); ev("awaiter", o.id); ++Track::live; }
    Aw(const Aw&) = delete;
    ~Aw() { ev("~awaiter", o.id, canary); canary = 0; --Track::live; }
    bool await_ready() noexcept(NE) { ev("ready?", o.id, o.ready); if constexpr (!NE) boom(o, T_READY); return o.ready == 1; }
    // ready: 0 suspends, 1 ready, 2 decides in await_suspend not to suspend
    template<class H> auto sus(H h) noexcept(NE)
    {
        ev("suspend", o.id, o.ready); if constexpr (!NE) boom(o, T_SUSPEND);
        bool stay = o.ready == 2;
        if constexpr (S == 1 || S == 4) { if (!stay) park(h, o); return !stay; }
        else if constexpr (S == 2) { if (!stay) park(h, o); if constexpr (requires { h.std_cast(); }) return stay ? coroutine_handle<>(h) : coroutine_handle<>(noop_coroutine()); else return stay ? std::coroutine_handle<>(h) : std::coroutine_handle<>(std::noop_coroutine()); }
        else if constexpr (S == 5 || S == 6) { if (!stay) park(h, o); std::coroutine_handle<> s; if constexpr (requires { h.std_cast(); }) s = h.std_cast(); else s = h; return stay ? s : std::coroutine_handle<>(std::noop_coroutine()); }
        else park(h, o);
    }
    template<class P> auto await_suspend(std::coroutine_handle<P> h) noexcept(NE) requires (S < 3 || S == 6) { return sus(h); }
    template<class P> auto await_suspend(macoro::coroutine_handle<P> h) noexcept(NE) requires (S < 3 || S == 6) { return sus(h); }
    auto await_suspend(std::coroutine_handle<> h) noexcept(NE) requires (S >= 3 && S <= 5) { return sus(h); }
    T await_resume() noexcept(NE)
    {
        ev("resume", o.id, canary); if constexpr (!NE) boom(o, T_RESUME);
        if constexpr (std::is_same_v<T, Val&>) { theVal = Val(o.v); return theVal; }
        else if constexpr (!std::is_void_v<T>) return T(o.v);
    }
};
using AwI0 = Aw<int, 0>; using AwI1 = Aw<int, 1>; using AwI2 = Aw<int, 2>; using AwI3 = Aw<int, 3>; using AwI5 = Aw<int, 5>;
using AwV1 = Aw<void, 1>; using AwV2 = Aw<void, 2>; using AwV4 = Aw<void, 4>; using AwV6 = Aw<void, 6>; using AwR0 = Aw<Val&, 0>; using AwM0 = Aw<MVal, 0>;
// an awaitable with different member operators for lvalues and temporaries
template<class T> struct Able
{
    Op o; Able(const Op& op) : o(op) { boom(o, T_MAKE); ev("able", o.id); ++Track::live; }
    Able(Able&& a) noexcept : o(a.o) { a.o.id = -1; ++Track::live; }
    Able(const Able& a) : o(a.o) { ++Track::live; ev("copy able", o.id); }
    ~Able() { if (o.id >= 0) ev("~able", o.id); --Track::live; }
    Aw<T, 2> operator co_await() & { ev("co_await&", o.id); boom(o, T_CO); return Aw<T, 2>(o); }
    Aw<T, 1> operator co_await() && { ev("co_await&&", o.id); boom(o, T_CO); Op p = o; p.v += 1; return Aw<T, 1>(p); }
};
struct Free { Op o; Free(const Op& p) : o(p) { ev("free", o.id); ++Track::live; } Free(const Free&) = delete; ~Free() { ev("~free", o.id); --Track::live; } };
static Free makeFree(const Op& o) { boom(o, T_MAKE); return Free(o); }
static AwI2 operator co_await(const Free& f) { ev("free co_await", f.o.id); boom(f.o, T_CO); return AwI2(f.o); }
static AwI2 operator_co_await(const Free& f) { ev("free co_await", f.o.id); boom(f.o, T_CO); return AwI2(f.o); }
struct Trans { Op o; Trans(const Op& p) : o(p) { boom(o, T_MAKE); ev("trans", o.id); ++Track::live; } Trans(const Trans&) = delete; ~Trans() { ev("~trans", o.id); --Track::live; } };
struct Nest : Aw<int, 2> // resuming gives another awaitable
{
    using Aw<int, 2>::Aw;
    Able<int> await_resume() { ev("nest resume", o.id); Op p = o; p.id += 1000; p.stage = o.sub; return Able<int>(p); }
};
static AwV2 AwFn(const Op& o) { ev("call", o.id); return AwV2(o); }
static std::optional<Able<void>> heldSlot;
static Able<void>* held(Op* o) { heldSlot.emplace(*o); return &*heldSlot; }
struct Thrower { int v; Thrower(int x) : v(x) {} };
static void take(MVal&& m) { ev("take", m.get()); }
static int look(const result<int>& r) { if (r.has_error()) { try { std::rethrow_exception(r.error()); } catch (broken_promise&) { ev("captured broken", 0); } catch (...) { evEx("captured"); } return -1; } ev("has", r.value()); return r.value(); }
static int look(const result<void>& r) { if (r.has_error()) { try { std::rethrow_exception(r.error()); } catch (...) { evEx("captured"); } return -1; } ev("has void", 0); return 0; }
// captured state: counts its uses and reports its destruction
struct Cap
{
    int id; int n = 0; std::unique_ptr<int> p;
    explicit Cap(int i) : id(i), p(new int(i)) { ++Track::live; } Cap(Cap&& o) noexcept : id(o.id), n(o.n), p(std::move(o.p)) { ++Track::live; }
    ~Cap() { if (p) ev("~capture", id, n); --Track::live; }
    void use(int) { ++n; if (*p != id) pbt::gen().fail("captured state damaged"); }
};

// ---------------------------------------------------------------- the coroutine type
static Fn* curFn; // the function being called
template<bool V> struct Co;
template<bool V> struct PromBase
{
    Fn* f; coroutine_handle<> cont = nullptr; std::exception_ptr ex; int val = -1; bool isMac = false;
    PromBase() : f(curFn) { ev("promise", f->id); f->alive = true; ++Track::live; }
    PromBase(const PromBase&) = delete;
    ~PromBase() { ev("~promise", f->id); f->alive = false; --Track::live; }
    AwV1 initial_suspend() { ev("initial_suspend", f->id); return AwV1(f->init); }
    struct Final : Aw<void, 2, true>
    {
        PromBase* p; Final(PromBase* b) : Aw<void, 2, true>(b->f->fin), p(b) {}
        bool await_ready() noexcept { ev("final ready?", o.id, o.ready); return o.ready == 1; }
        template<class P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) noexcept { ev("final suspend", o.id, h.done()); return next().std_cast(); }
        template<class P> coroutine_handle<> await_suspend(coroutine_handle<P> h) noexcept { ev("final suspend", o.id, h.done()); return next(); }
        coroutine_handle<> next() noexcept { return p->cont ? p->cont : coroutine_handle<>(noop_coroutine()); }
        void await_resume() noexcept { ev("final resume", o.id); }
    };
    Final final_suspend() noexcept { ev("final_suspend", f->id); return Final(this); }
    void unhandled_exception()
    {
        ev("unhandled in", f->id); evEx("unhandled");
        if (f->rethrow) throw;
        ex = std::current_exception();
    }
    Aw<int, 0> yield_value(int v) { ev("yield", f->id, v); Op o = f->endOp; o.id = 5000 + f->id; o.v = v * 2; o.ready = v % 5 == 0; o.via = v % 3; o.stage = v % 11 == 3 ? T_RESUME : v % 11 == 5 ? T_MAKE : 0; return Aw<int, 0>(o); }
    template<class A> decltype(auto) await_transform(A&& a)
    {
        if constexpr (std::is_same_v<std::remove_cvref_t<A>, Trans>) { ev("transform", f->id, a.o.id); boom(a.o, T_TRANSFORM); Op o = a.o; o.v += 7; return AwI1(o); }
        else { ev("pass", f->id); return std::forward<A>(a); }
    }
    void result() { if (ex) std::rethrow_exception(ex); }
};
template<bool V> struct Prom : PromBase<V>
{
    Co<V> get_return_object(); Co<V> macoro_get_return_object();
    void return_value(int v) { ev("return", this->f->id, v); this->val = v; }
    void return_value(Thrower t) { ev("return throws", this->f->id, t.v); exk::raise(t.v % exk::n, t.v); }
};
template<> struct Prom<false> : PromBase<false>
{
    Co<false> get_return_object(); Co<false> macoro_get_return_object();
    void return_void() { ev("return", f->id); }
};
template<bool V> struct Co
{
    using promise_type = Prom<V>;
    coroutine_handle<promise_type> h; Fn* f = nullptr;
    Co() { ++Track::live; }
    explicit Co(coroutine_handle<promise_type> x) : h(x), f(x.promise().f) { ++Track::live; }
    Co(Co&& o) noexcept : h(std::exchange(o.h, nullptr)), f(o.f) { ++Track::live; }
    Co& operator=(Co&& o) noexcept { drop(); h = std::exchange(o.h, nullptr); f = o.f; return *this; }
    void drop() { if (h && f->alive) { auto x = std::exchange(h, nullptr); int via = f->init.sub % 3; if (via == 0) x.destroy(); else if (via == 1) coroutine_handle<>(x).destroy(); else x.std_cast().destroy(); } h = nullptr; }
    ~Co() { drop(); --Track::live; }
    struct Awaiter
    {
        coroutine_handle<promise_type> h;
        bool await_ready() { return !h || h.done(); }
        template<class P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P> c) { h.promise().cont = coroutine_handle<>(c); return h.std_cast(); }
        template<class P> coroutine_handle<> await_suspend(coroutine_handle<P> c) { h.promise().cont = c; return h; }
        auto await_resume() { h.promise().result(); if constexpr (V) return h.promise().val; }
    };
    Awaiter operator co_await() const { return { h }; }
};
template<bool V> Co<V> Prom<V>::get_return_object() { return Co<V>(coroutine_handle<Prom>::from_promise(*this, coroutine_handle_type::std)); }
template<bool V> Co<V> Prom<V>::macoro_get_return_object() { this->isMac = true; return Co<V>(coroutine_handle<Prom>::from_promise(*this, coroutine_handle_type::macoro)); }
Co<false> Prom<false>::get_return_object() { return Co<false>(coroutine_handle<Prom>::from_promise(*this, coroutine_handle_type::std)); }
Co<false> Prom<false>::macoro_get_return_object() { this->isMac = true; return Co<false>(coroutine_handle<Prom>::from_promise(*this, coroutine_handle_type::macoro)); }
template<class H> static void promiseOf(H h, const Op& o) { if constexpr (requires { h.promise(); }) ev("promise of", h.promise().f->id, o.id); REQUIRE(!h.done(), "a coroutine suspended at awaiter %d says it is done", o.id); }

// the order in which a compiler destroys parameters is not compared, so what logs is one object
struct State { Cap cap; Able<int> able; Co<true> hold; };
#define BODY_PARAMS Fn* f, int i, int x, Op* op, State s, Val vv, result<int> ri, result<void> rv
#define BODY_ARGS f, 0, 0, nullptr, State{ Cap(f->id), Able<int>(f->ableOp), Co<true>() }, Val(0), result<int>(), result<void>()
template<bool V> Co<V> natBody(BODY_PARAMS);
template<bool V> Co<V> macBody(BODY_PARAMS);
template<> Co<true> natBody<true>(BODY_PARAMS); template<> Co<false> natBody<false>(BODY_PARAMS);
template<> Co<true> macBody<true>(BODY_PARAMS); template<> Co<false> macBody<false>(BODY_PARAMS);
template<bool V> static Co<V> child(Fn* f)
{
    curFn = f; ev("call", f->id);
    bool nat = E->mode == 0 ? true : E->mode == 1 ? false : f->native;
    return nat ? natBody<V>(BODY_ARGS) : macBody<V>(BODY_ARGS);
}

// ---------------------------------------------------------------- native
#define AWAIT(...) co_await __VA_ARGS__
#define AWAIT_SET(v, ...) v = co_await __VA_ARGS__
#define AWAIT_FN(fn, ...) fn(co_await __VA_ARGS__)
#define AWAIT_TRY(r, ...) std::exception_ptr e_; try { r = Ok(co_await __VA_ARGS__); } catch (...) { e_ = std::current_exception(); } if (e_) r = Err(e_)
#define AWAIT_TRY_VOID(r, ...) std::exception_ptr e_; try { co_await __VA_ARGS__; r = Ok(); } catch (...) { e_ = std::current_exception(); } if (e_) r = Err(e_)
#define AWAIT_AWAIT(...) co_await co_await __VA_ARGS__
#define YIELD(...) co_yield __VA_ARGS__
#define YIELD_SET(v, ...) v = co_yield __VA_ARGS__
#define YIELD_AWAIT(...) co_yield co_await __VA_ARGS__
#define RETURN(...) co_return __VA_ARGS__
#define RETURN_VOID co_return
#define RETURN_AWAIT(...) co_return co_await __VA_ARGS__
#define RETURN_YIELD(...) co_return co_yield __VA_ARGS__
template<> Co<false> natBody<false>(BODY_PARAMS)
{
#define VOID_BODY 1
#include "c04_body.inc"
#undef VOID_BODY
}
template<> Co<true> natBody<true>(BODY_PARAMS)
{
#define VOID_BODY 0
#include "c04_body.inc"
}
#undef AWAIT
#undef AWAIT_SET
#undef AWAIT_FN
#undef AWAIT_TRY
#undef AWAIT_TRY_VOID
#undef AWAIT_AWAIT
#undef YIELD
#undef YIELD_SET
#undef YIELD_AWAIT
#undef RETURN
#undef RETURN_VOID
#undef RETURN_AWAIT
#undef RETURN_YIELD
#define AWAIT(...) MC_AWAIT(__VA_ARGS__)
#define AWAIT_SET(v, ...) MC_AWAIT_SET(v, __VA_ARGS__)
#define AWAIT_FN(fn, ...) MC_AWAIT_FN(fn, __VA_ARGS__)
#define AWAIT_TRY(r, ...) MC_AWAIT_TRY(r, __VA_ARGS__)
#define AWAIT_TRY_VOID(r, ...) MC_AWAIT_TRY(r, __VA_ARGS__)
#define AWAIT_AWAIT(...) MC_AWAIT_AWAIT(__VA_ARGS__)
#define YIELD(...) MC_YIELD(__VA_ARGS__)
#define YIELD_SET(v, ...) MC_YIELD_SET(v, __VA_ARGS__)
#define YIELD_AWAIT(...) MC_YIELD_AWAIT(__VA_ARGS__)
#define RETURN(...) MC_RETURN(__VA_ARGS__)
#define RETURN_VOID MC_RETURN_VOID()
#define RETURN_AWAIT(...) MC_RETURN_AWAIT(__VA_ARGS__)
#define RETURN_YIELD(...) MC_RETURN_YIELD(__VA_ARGS__)
#define CAPS f, i, x, op, s = std::move(s), vv = std::move(vv), ri = std::move(ri), rv = std::move(rv)
template<> Co<false> macBody<false>(BODY_PARAMS)
{
    MC_BEGIN(Co<false>, CAPS);
#define VOID_BODY 1
#include "c04_body.inc"
#undef VOID_BODY
    MC_END();
}
template<> Co<true> macBody<true>(BODY_PARAMS)
{
    MC_BEGIN(Co<true>, CAPS);
#define VOID_BODY 0
#include "c04_body.inc"
    MC_END();
}

// ---------------------------------------------------------------- generated environments
static std::deque<Fn>* fns; static int nextId;
static const char* kindName[] = { "AwI0","AwV1","AwV2","AwI3","AwV4","AwI5","AwV6","set AwI1","set AwI2","set Val& AwR0","fn MVal","fn Able&&","Able&","Able move","free","transformed","try Able<int>","try AwV1","await await","yield","yield set","yield await","child int","child void","try child","held child","throw","lvalue of call","awaiter of call", "loop of awaits", "return", "return await", "return yield", "return child", "return lvalue" };
enum { KINDS = 35 };
// where an operation of this kind can throw (an index into it, 0 = nowhere)
static int stageOf(pbt::Gen& g, int kind)
{
    if (!g.chance(1, 8)) return OK_;
    if (kind == 15) return g.pick({ (int)T_MAKE, (int)T_RESUME, (int)T_TRANSFORM, (int)T_READY, (int)T_SUSPEND });
    if ((kind >= 11 && kind <= 14) || kind == 16 || kind == 27) return g.pick({ (int)T_RESUME, (int)T_CO, (int)T_READY, (int)T_SUSPEND });
    return g.pick({ (int)T_RESUME, (int)T_MAKE, (int)T_READY, (int)T_SUSPEND });
}
static void fillOp(pbt::Gen& g, Op& o, bool sync)
{
    o.id = ++nextId; o.v = (int)g.u(40) + 1; o.ready = sync ? 1 + (int)g.u(2) : g.weighted({ 3, 1, 1 }); o.via = (int)g.u(3);
    // an awaiter returning void from await_suspend always suspends
    if (o.ready == 2 && (o.kind == 0 || o.kind == 3 || o.kind == 9 || o.kind == 10 || o.kind == 21)) o.ready = 1;
    o.stage = stageOf(g, o.kind); o.sub = g.chance(1, 6) ? (int)g.pick({ (int)T_CO, (int)T_RESUME, (int)T_READY }) : 0;
}
static Fn* genFn(pbt::Gen& g, int depth, bool voidFn, bool sync, bool root)
{
    fns->emplace_back(); Fn* f = &fns->back(); f->id = ++nextId; f->voidFn = voidFn; f->native = g.b();
    int n = g.size(depth == 0 ? 7 : 4);
    for (int k = 0; k < n; ++k)
    {
        Op o; o.kind = (int)g.u(KINDS);
        if (o.kind >= 22 && o.kind <= 25 && depth >= 3) o.kind = 8;
        if ((o.kind == 26 || o.kind >= 30) && g.chance(3, 4)) o.kind = 7;
        if (o.kind == 33 && depth >= 3) o.kind = 31;
        if (o.kind > 30 && voidFn) o.kind = 30;
        if (sync && (o.kind == 19 || o.kind == 20 || o.kind == 32)) o.kind = 7;
        fillOp(g, o, sync);
        if (sync && o.kind == 21) o.kind = 7;
        if ((o.kind >= 22 && o.kind <= 25) || o.kind == 33) o.child = genFn(g, depth + 1, o.kind == 23, sync || g.chance(1, 4), false);
        f->ops.push_back(o);
    }
    if (!voidFn)
    {
        f->end = (int)g.weighted({ 4, 2, sync ? 0 : 2, depth < 3 ? 2 : 0, 1, 2 });
        f->endOp.kind = f->end == 1 ? 8 : 0; fillOp(g, f->endOp, sync); if (f->end == 2) f->endOp.stage = 0;
        if (f->end == 3) { f->endOp.child = genFn(g, depth + 1, false, sync || g.chance(1, 4), false); }
    }
    else f->end = (int)g.u(2);
    f->ableOp.kind = 12; fillOp(g, f->ableOp, sync); if (f->ableOp.stage == T_MAKE) f->ableOp.stage = 0;
    f->init.kind = 2; f->init.id = ++nextId; f->init.via = (int)g.u(3); f->init.sub = (int)g.u(3); f->init.stage = g.chance(1, 12) ? T_RESUME : 0; f->init.v = 99;
    f->init.ready = root ? (int)g.u(3) : sync ? (int)g.u(3) : 0; f->init.nopark = !root;
    f->fin.id = ++nextId; f->fin.ready = root && g.chance(1, 6);
    return f;
}
static void showFn(pbt::Gen& g, Fn* f, int ind)
{
    g.note("%*s%s coroutine %d%s init=%d/%d%s%s end=%d%s", ind, "", f->voidFn ? "void" : "int", f->id, f->native ? " (native when mixed)" : "", f->init.ready, f->init.stage, f->fin.ready ? " runs off its end" : "", f->rethrow ? " rethrows" : "", f->end, f->endOp.stage ? " end throws" : "");
    for (auto& o : f->ops) { g.note("%*s  %d: %s v=%d ready=%d via=%d throws-at=%d", ind, "", o.id, kindName[o.kind], o.v, o.ready, o.via, o.stage); if (o.child) showFn(g, o.child, ind + 4); }
    if (f->endOp.child) showFn(g, f->endOp.child, ind + 4);
}
static bool hasKind(Fn* f) { for (auto& o : f->ops) if (o.child) return true; return f->endOp.child; }

static bool conserveOnly;
template<bool V> static void drive(Fn* root, int dropAt)
{
    try
    {
        Co<V> co = child<V>(root);
        ev("made", root->alive);
        if (root->alive && !E->k && !co.h.done()) { } // finished or parked
        int steps = 0;
        while (E->k && root->alive)
        {
            if (steps++ == dropAt) { ev("drop", steps); break; }
            auto k = std::exchange(E->k, nullptr);
            ev("resume outside", steps);
            try { k(); }
            catch (...) { evEx("escaped"); REQUIRE(root->alive, "an exception left the coroutine and its frame is gone"); ev("done after escape", co.h.done()); REQUIRE(conserveOnly || co.h.done(), "a coroutine whose unhandled_exception threw is not at its end"); break; }
            if (steps > 400) pbt::gen().fail("runaway coroutine");
        }
        if (root->alive)
        {
            ev("done?", co.h.done(), coroutine_handle<>(co.h).done() * 10 + co.h.std_cast().done());
            REQUIRE(conserveOnly || co.h.done() == coroutine_handle<>(co.h).done() && co.h.done() == co.h.std_cast().done(), "forms of the handle disagree on completion");
            if (co.h.done() && !root->rethrow) { try { co.h.promise().result(); if constexpr (V) ev("value of root", co.h.promise().val); else ev("done root", 0); } catch (...) { evEx("exception of root"); } }
        }
    }
    catch (...) { evEx("escaped the call"); }
    ev("gone", root->alive);
}
static std::vector<Event> execute(Fn* root, int mode, int dropAt)
{
    Env env; env.mode = mode; E = &env; heldSlot.reset();
    long before = Track::live;
    if (root->voidFn) drive<false>(root, dropAt); else drive<true>(root, dropAt);
    env.k = nullptr; heldSlot.reset();
    REQUIRE(!root->alive, "the root coroutine's frame was not destroyed (mode %d)", mode);
    for (auto& f : *fns) REQUIRE(!f.alive, "the frame of coroutine %d was not destroyed (mode %d)", f.id, mode);
    REQUIRE(Track::live == before, "%ld objects were not destroyed, or destroyed twice (mode %d)", Track::live - before, mode);
    E = nullptr; pbt::gen().count("events", env.tr.size());
    pbt::gen().count("suspensions", env.pendings);
    if (env.pendings >= 2) pbt::gen().label("suspends twice");
    return std::move(env.tr);
}
PBT_SECTION(macro_equivalence, 150000, 4000000)
{
    std::deque<Fn> store; fns = &store; nextId = 0;
    Fn* root = genFn(g, 0, g.chance(1, 3), false, true);
    bool kids = hasKind(root);
    if (!kids && g.chance(1, 6)) root->rethrow = 1, root->fin.ready = 0, root->init.ready = 0;
    int dropAt = g.chance(1, 4) ? (int)g.u(6) : -1;
    showFn(g, root, 0); g.note("dropped before resumption %d", dropAt);
    auto n = execute(root, 0, dropAt);
    const char* name[] = { "native", "macro", "mixed" };
    for (int m = 1; m <= (kids ? 2 : 1); ++m)
    {
        auto t = execute(root, m, dropAt);
        size_t i = 0; while (i < n.size() && i < t.size() && n[i] == t[i]) ++i;
        if (i == n.size() && i == t.size()) continue;
        for (size_t j = 0; j < i; ++j) g.note("   both: %s %d %ld", n[j].what, n[j].a, n[j].b);
        for (size_t j = i; j < n.size() && j < i + 12; ++j) g.note("   native: %s %d %ld", n[j].what, n[j].a, n[j].b);
        for (size_t j = i; j < t.size() && j < i + 12; ++j) g.note("   %s: %s %d %ld", name[m], t[j].what, t[j].a, t[j].b);
        g.fail("event %zu of the %s run differs from the native run: native %s %d %ld, %s %s %d %ld", i, name[m], i < n.size() ? n[i].what : "(end)", i < n.size() ? n[i].a : 0, i < n.size() ? n[i].b : 0, name[m], i < t.size() ? t[i].what : "(end)", i < t.size() ? t[i].a : 0, i < t.size() ? t[i].b : 0);
    }
    int aw = 0; for (auto& e : n) aw += !strcmp(e.what, "ready?");
    if (dropAt >= 0) g.label("dropped"); if (kids) g.label("nested"); if (root->rethrow) g.label("rethrows");
    for (auto& e : n) { if (!strcmp(e.what, "throws")) g.label("throws"); if (!strcmp(e.what, "captured")) g.label("captured"); if (!strcmp(e.what, "escaped")) g.label("escaped"); }
    if (aw >= 4) g.nontrivial();
}
// the same bodies, dropped more often; only what is created and destroyed counts (C03)
PBT_SECTION(macro_conserves, 100000, 3000000)
{
    std::deque<Fn> store; fns = &store; nextId = 0; conserveOnly = true; struct Off { ~Off() { conserveOnly = false; } } off;
    Fn* root = genFn(g, 0, g.chance(1, 3), false, true);
    int dropAt = g.b() ? (int)g.u(6) : -1; int m = 1 + (int)g.u(2);
    showFn(g, root, 0); g.note("dropped before resumption %d, mode %d", dropAt, m);
    auto t = execute(root, m, dropAt);
    int aw = 0; for (auto& e : t) aw += !strcmp(e.what, "ready?");
    if (dropAt >= 0) g.label("dropped"); if (aw >= 4) g.nontrivial();
}
