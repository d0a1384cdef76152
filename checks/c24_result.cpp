#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include "macoro/result.h"
#include "macoro/wrap.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "zoo.h"
#include "vsched_off.h"
using namespace macoro;

// ---- payload access: make from an int, read back, what a moved-from object looks like
template<class T> struct Pay;
template<> struct Pay<int> { static int mk(int v) { return v; } static int rd(const int& v) { return v; } static constexpr int dflt = 0; static int moved(int v) { return v; } };
template<bool C> struct Pay<ValT<C>> { static ValT<C> mk(int v) { return ValT<C>(v); } static int rd(const ValT<C>& v) { return v.get(); } static constexpr int dflt = -1; static int moved(int) { return -999; } };
template<> struct Pay<std::exception_ptr>
{
    static std::exception_ptr mk(int v) { return std::make_exception_ptr(Boom(v)); }
    static int rd(const std::exception_ptr& p) { if (!p) return -999; try { std::rethrow_exception(p); } catch (Boom& b) { return b.id; } catch (...) { return -998; } }
    static constexpr int dflt = -999; static int moved(int) { return -999; }
};
template<class T> struct Pay<std::unique_ptr<T>> { static std::unique_ptr<T> mk(int v) { return std::make_unique<T>(v); } static int rd(const std::unique_ptr<T>& p) { return p ? *p : -999; } static constexpr int dflt = -999; static int moved(int) { return -999; } };
static const char* opn[] = { "from Ok(rvalue)", "from Ok(lvalue)", "from Ok(const)", "from Err(rvalue)", "from Err(lvalue)", "from Err(const)", "default", "copy construct", "move construct", "copy assign", "move assign",
    "assign Ok(rvalue)", "assign Ok(lvalue)", "assign Err(rvalue)", "assign Err(lvalue)", "read", "write", "value_or", "error_or", "compare", "wrong alternative", "unwrap", "take value", "take error" };
struct MS { bool err = false; int v = 0; };
template<class T, class E> struct Sim
{
    using R = result<T, E>; static constexpr bool isVoid = std::is_void_v<T>; using TT = std::conditional_t<isVoid, int, T>;
    static constexpr bool cT = isVoid || std::is_copy_constructible_v<TT>, cE = std::is_copy_constructible_v<E>, eptr = std::is_same_v<E, std::exception_ptr>;
    pbt::Gen& g; static const int N = 3; std::optional<R> r[N]; std::optional<MS> m[N];
    Sim(pbt::Gen& x) : g(x) {}
    void checkOne(int i, const char* when)
    {
        auto& a = *r[i]; const R& c = a; auto& k = *m[i];
        REQUIRE(a.has_value() == !k.err && a.has_error() == k.err && c.has_value() == !k.err && c.has_error() == k.err, "after %s: result %d reports value %d error %d, expected error %d", when, i, a.has_value(), a.has_error(), k.err);
        REQUIRE(bool(a) == !k.err && bool(c) == !k.err, "after %s: result %d converts to bool wrongly", when, i);
        if (k.err) { REQUIRE(Pay<E>::rd(a.error()) == k.v, "after %s: error of %d is %d, expected %d", when, i, Pay<E>::rd(a.error()), k.v); REQUIRE(Pay<E>::rd(c.error()) == k.v && &c.error() == &a.error(), "after %s: const error differs", when); }
        else if constexpr (isVoid) { a.value(); c.value(); *a; *c; }
        else { REQUIRE(Pay<TT>::rd(a.value()) == k.v, "after %s: value of %d is %d, expected %d", when, i, Pay<TT>::rd(a.value()), k.v); REQUIRE(&c.value() == &a.value() && &*c == &a.value() && &*a == &a.value(), "after %s: accessors disagree", when); }
    }
    template<class F> void throwsAs(const MS& k, F&& f, const char* what) // k failed: asking for the value
    {
        bool thrown = false;
        try { f(); }
        catch (Boom& b) { thrown = true; if (eptr) REQUIRE(b.id == k.v, "%s of a failed result threw exception %d, expected %d", what, b.id, k.v); else g.fail("%s of a failed result threw an unrelated exception", what); }
        catch (E& e) { thrown = true; REQUIRE(Pay<E>::rd(e) == k.v, "%s of a failed result threw error %d, expected %d", what, Pay<E>::rd(e), k.v); }
        catch (std::exception& e) { g.fail("%s of a failed result threw %s", what, e.what()); }
        REQUIRE(thrown, "%s of a failed result did not throw", what);
    }
    Own unwrapNat(R& a, bool mv, int& got, bool& ok)
    {
        if constexpr (isVoid) { if (mv) co_await std::move(a); else co_await a; }
        else { if (mv) { auto&& x = co_await std::move(a); got = Pay<TT>::rd(x); } else { auto&& x = co_await a; got = Pay<TT>::rd(x); } }
        ok = true;
    }
    static task<void> unwrapMac(R& a, int& got, bool& ok) requires isVoid { MC_BEGIN(task<void>, &a, &ok); MC_AWAIT(a); ok = true; MC_END(); }
    static task<void> unwrapMac(R& a, int& got, bool& ok) requires (!isVoid) { MC_BEGIN(task<void>, &a, &got, &ok); MC_AWAIT_FN([&got](TT&& x) { got = Pay<TT>::rd(x); }, a); ok = true; MC_END(); }
    template<class X> X unwrapRes(R& a, bool mv) { if constexpr (isVoid) { if (mv) co_await std::move(a); else co_await a; co_return Ok(); } else { if (mv) co_return Ok(co_await std::move(a)); co_return Ok(co_await a); } }
    void step()
    {
        int op = (int)g.u(24), i = (int)g.u(N), j = (int)g.u(N), v = (int)g.in(-3, 3) * 7;
        const char* nm = opn[op]; g.note("%d: %s (%d, %d)", i, nm, j, v); auto& s = r[i]; auto& k = m[i];
        if (op > 6 && op < 11 && !m[j]) return;
        if (op >= 11 && !m[i]) return;
        auto dead = [&](int x) { return m[x] && m[x]->v == -999; };
        switch (op)
        {
        case 0: if constexpr (isVoid) { s.reset(); s.emplace(Ok()); } else { s.reset(); s.emplace(Ok(Pay<TT>::mk(v))); } k = MS{ false, v }; break;
        case 1: case 2: if constexpr (isVoid) return; else if constexpr (cT) { TT t = Pay<TT>::mk(v); const TT& ct = t; s.reset(); if (op == 1) s.emplace(Ok(t)); else s.emplace(Ok(ct)); k = MS{ false, v }; REQUIRE(Pay<TT>::rd(t) == v, "Ok(lvalue) changed the object it was given"); } break;
        case 3: s.reset(); s.emplace(Err(Pay<E>::mk(v))); k = MS{ true, v }; break;
        case 4: case 5: if constexpr (cE) { E e = Pay<E>::mk(v); const E& ce = e; s.reset(); if (op == 4) s.emplace(Err(e)); else s.emplace(Err(ce)); k = MS{ true, v }; REQUIRE(Pay<E>::rd(e) == v, "Err(lvalue) changed the object it was given"); } break;
        case 6: s.reset(); s.emplace(); k = MS{ false, isVoid ? 0 : Pay<TT>::dflt }; break;
        case 7: if constexpr (cT && cE) { if (i == j) return; s.reset(); s.emplace(static_cast<const R&>(*r[j])); k = m[j]; } break;
        case 8: if (i == j) return; s.reset(); s.emplace(std::move(*r[j])); k = m[j]; m[j]->v = mv(*m[j]); break;
        case 9: if constexpr (cT && cE) { if (!s) return; if (i != j || g.b()) *s = static_cast<const R&>(*r[j]); k = m[j]; } break;
        case 10: if (!s || i == j) return; *s = std::move(*r[j]); k = m[j]; m[j]->v = mv(*m[j]); break;
        case 11: if constexpr (isVoid) *s = Ok(); else if constexpr (std::is_same_v<T, Val> || std::is_same_v<T, MVal>) { int q = (int)g.u(3), lv = v; if (q == 0) *s = Ok(Pay<TT>::mk(v)); else if (q == 1) *s = Ok(int(v)); else *s = Ok(lv); } else *s = Ok(Pay<TT>::mk(v)); k = MS{ false, v }; break;
        case 12: if constexpr (isVoid) return; else if constexpr (cT) { TT t = Pay<TT>::mk(v); const TT& ct = t; if (g.b()) *s = Ok(t); else *s = Ok(ct); k = MS{ false, v }; REQUIRE(Pay<TT>::rd(t) == v, "assigning Ok(lvalue) changed the object it was given"); } break;
        case 13: if constexpr (std::is_same_v<E, Val> && !isVoid) { int lv = v; if (g.b()) *s = Err(Pay<E>::mk(v)); else if (g.b()) *s = Err(int(v)); else *s = Err(lv); } else *s = Err(Pay<E>::mk(v)); k = MS{ true, v }; break;
        case 14: if constexpr (cE) { E e = Pay<E>::mk(v); const E& ce = e; if (g.b()) *s = Err(e); else *s = Err(ce); k = MS{ true, v }; REQUIRE(Pay<E>::rd(e) == v, "assigning Err(lvalue) changed the object it was given"); } break;
        case 15: break;
        case 16: if (k->err) s->error() = Pay<E>::mk(v); else if constexpr (!isVoid) { if (g.b()) s->value() = Pay<TT>::mk(v); else **s = Pay<TT>::mk(v); } k->v = v; break;
        case 17: if constexpr (!isVoid && cT)
        {
            TT alt = Pay<TT>::mk(1000 + v); const TT& calt = alt; const R& cs = *s;
            int want = k->err ? 1000 + v : k->v;
            auto& x = s->value_or(alt); REQUIRE(Pay<TT>::rd(x) == want && (k->err ? &x == &alt : &x == &s->value()), "value_or(lvalue) gave the wrong object");
            auto& y = cs.value_or(calt); REQUIRE(Pay<TT>::rd(y) == want && (k->err ? &y == &alt : &y == &cs.value()), "value_or(const) gave the wrong object");
            TT z = s->value_or(Pay<TT>::mk(1000 + v)); REQUIRE(Pay<TT>::rd(z) == want, "value_or(rvalue) gave %d, expected %d", Pay<TT>::rd(z), want);
        } break;
        case 18: if constexpr (cE)
        {
            E alt = Pay<E>::mk(1000 + v); const E& calt = alt; const R& cs = *s; int want = k->err ? k->v : 1000 + v;
            auto& x = s->error_or(alt); REQUIRE(Pay<E>::rd(x) == want && (k->err ? &x == &s->error() : &x == &alt), "error_or(lvalue) gave the wrong object");
            auto& y = cs.error_or(calt); REQUIRE(Pay<E>::rd(y) == want && (k->err ? &y == &cs.error() : &y == &alt), "error_or(const) gave the wrong object");
            E z = s->error_or(Pay<E>::mk(1000 + v)); REQUIRE(Pay<E>::rd(z) == want, "error_or(rvalue) gave the wrong error");
        } break;
        case 19:
        {
            const R& cs = *s;
            if constexpr (isVoid) { REQUIRE((cs == Ok()) == !k->err && (cs != Ok()) == k->err && (*s == Ok()) == !k->err, "comparison with Ok() is wrong"); }
            else if constexpr (!std::is_same_v<T, std::exception_ptr>)
            {
                bool eq = !k->err && k->v == v; TT t = Pay<TT>::mk(v);
                REQUIRE((cs == Ok(Pay<TT>::mk(v))) == eq && (cs != Ok(Pay<TT>::mk(v))) == !eq, "comparing with Ok(rvalue %d) is wrong, have %s %d", v, k->err ? "error" : "value", k->v);
                REQUIRE((cs == Ok(t)) == eq && (cs != Ok(t)) == !eq && (*s == Ok(t)) == eq && (*s == Ok(std::as_const(t))) == eq && (*s != Ok(std::as_const(t))) == !eq && Pay<TT>::rd(t) == v, "comparing with Ok(lvalue) is wrong");
            }
            if constexpr (!eptr)
            {
                bool eq = k->err && k->v == v; E e = Pay<E>::mk(v);
                REQUIRE((cs == Err(Pay<E>::mk(v))) == eq && (cs != Err(Pay<E>::mk(v))) == !eq && (cs == Err(e)) == eq && (cs != Err(e)) == !eq && (*s == Err(std::as_const(e))) == eq && (*s != Err(std::as_const(e))) == !eq && Pay<E>::rd(e) == v, "comparing with Err is wrong");
            }
            else { std::exception_ptr e = k->err ? s->error() : Pay<E>::mk(v), f = Pay<E>::mk(v); REQUIRE((cs == Err(e)) == k->err && (cs != Err(e)) == !k->err && (cs == Err(f)) == false && cs != Err(f), "comparing with Err(exception) is wrong"); }
        } break;
        case 20:
            if (k->err)
            {
                if (dead(i) && eptr) return;
                if constexpr (cE)
                {
                    const R& cs = *s;
                    throwsAs(*k, [&] { s->value(); }, "value()"); throwsAs(*k, [&] { cs.value(); }, "const value()"); throwsAs(*k, [&] { **s; }, "*"); throwsAs(*k, [&] { *cs; }, "const *");
                }
            }
            else
            {
                int n = 0; const R& cs = *s;
                try { s->error(); } catch (std::runtime_error&) { ++n; } catch (...) { n = 100; }
                try { cs.error(); } catch (std::runtime_error&) { ++n; } catch (...) { n = 100; }
                REQUIRE(n == 2, "error() of a successful result did not throw runtime_error");
            }
            break;
        case 21:
        {
            if (dead(i) && (eptr || !cE)) return;
            if constexpr (cE)
            {
                int got = k->v, how = (int)g.u(eptr ? 5 : 3); bool ok = false; MS before = *k; g.note("  unwrap way %d", how);
                auto run = [&] {
                    if (how < 2) { Own o = unwrapNat(*s, how == 1, got, ok); o.start(); o.rethrow(); }
                    else if (how == 2) sync_wait(unwrapMac(*s, got, ok));
                    else if constexpr (eptr) { R x = unwrapRes<R>(*s, how == 4); ok = true; if constexpr (isVoid) x.value(); else got = Pay<TT>::rd(x.value()); }
                };
                if (k->err) { throwsAs(before, run, "unwrapping"); }
                else { try { run(); } catch (std::exception& e) { g.fail("unwrapping a success threw %s", e.what()); } REQUIRE(ok && got == before.v, "unwrapping gave %d, expected %d", got, before.v); k->v = mv(*k); }
            }
        } break;
        case 22: if constexpr (!isVoid) { if (k->err) return; TT t = std::move(s->value()); REQUIRE(Pay<TT>::rd(t) == k->v, "moving the value out gave the wrong value"); k->v = mv(*k); } break;
        case 23: { if (!k->err) return; E t = std::move(s->error()); REQUIRE(Pay<E>::rd(t) == k->v, "moving the error out gave the wrong error"); k->v = mv(*k); } break;
        }
        for (int x = 0; x < N; ++x) if (m[x]) { REQUIRE(r[x].has_value(), "harness"); checkOne(x, nm); }
    }
    int mv(const MS& k) { return k.err ? Pay<E>::moved(k.v) : isVoid ? k.v : Pay<TT>::moved(k.v); }
    void go(LiveCheck& lc)
    {
        int n = (int)g.size(40), used = 0; for (int i = 0; i < n; ++i) step();
        for (auto& x : m) used += x.has_value();
        if (n >= 5 && used >= 2) g.nontrivial();
        for (auto& x : r) x.reset(); lc.done("result payload");
    }
};
template<class T> static void simT(pbt::Gen& g, LiveCheck& lc)
{
    int e = (int)g.u(3); g.note("error type %s", (const char*[]) { "exception_ptr", "int", "Val" }[e]);
    switch (e) { case 0: return Sim<T, std::exception_ptr>(g).go(lc); case 1: return Sim<T, int>(g).go(lc); default: return Sim<T, Val>(g).go(lc); }
}
PBT_SECTION(result_model, 600000, 6000000)
{
    int t = (int)g.u(5); LiveCheck lc; g.note("value type %s", (const char*[]) { "int", "Val", "move-only", "void", "exception_ptr" }[t]);
    switch (t) { case 0: simT<int>(g, lc); break; case 1: simT<Val>(g, lc); break; case 2: simT<MVal>(g, lc); break; case 3: simT<void>(g, lc); break; default: simT<std::exception_ptr>(g, lc); }
}

// ---- payloads whose copy can fail: a failed operation leaves a value or an error, the old one
template<> struct Pay<Frail> { static Frail mk(int v) { return Frail(v); } static int rd(const Frail& v) { return v.get(); } };
template<class T, class E> void frail(pbt::Gen& g)
{
    using R = result<T, E>; constexpr bool fT = std::is_same_v<T, Frail>, fE = std::is_same_v<E, Frail>;
    struct M { bool err; int v; }; std::vector<M> m; std::vector<std::unique_ptr<R>> r; int failed = 0, worked = 0;
    auto check = [&](const char* when) {
        for (size_t i = 0; i < r.size(); ++i)
        {
            REQUIRE(r[i]->has_value() != r[i]->has_error(), "after %s: result %zu is neither", when, i);
            REQUIRE(r[i]->has_error() == m[i].err, "after %s: result %zu holds %s, expected %s", when, i, r[i]->has_error() ? "an error" : "a value", m[i].err ? "an error" : "a value");
            try { int got = m[i].err ? Pay<E>::rd(r[i]->error()) : Pay<T>::rd(r[i]->value()); REQUIRE(got == m[i].v, "after %s: result %zu holds %d, expected %d", when, i, got, m[i].v); }
            catch (std::exception& e) { g.fail("after %s: reading result %zu: %s", when, i, e.what()); }
        }
    };
    auto fresh = [&](bool err, int v) { if (err) r.push_back(std::make_unique<R>(Err(Pay<E>::mk(v)))); else r.push_back(std::make_unique<R>(Ok(Pay<T>::mk(v)))); m.push_back({ err, v }); };
    for (int i = 0; i < 3; ++i) fresh(g.b(), (int)g.u(50));
    int n = 3 + (int)g.u(20);
    for (int op = 0; op < n; ++op)
    {
        int i = (int)g.u(3), j = (int)g.u(3), v = 100 + (int)g.u(50), what = (int)g.u(8); int fuse = g.chance(2, 3) ? 1 + (int)g.biased(3, 0, 2) : 0;
        static const char* nm[] = { "copy assignment", "assigning Ok(lvalue)", "assigning Err(lvalue)", "copy construction", "move assignment", "construction from an lvalue", "value_or", "error_or" };
        g.note("%d: %s (%d, %d)%s", i, nm[what], j, v, fuse ? "" : " [no failure]"); if (fuse) g.note("  copy number %d fails", fuse);
        T t = Pay<T>::mk(v); E e = Pay<E>::mk(v); M next = m[i]; bool threw = false; std::unique_ptr<R> made;
        Frail::fuse = fuse;
        try
        {
            switch (what)
            {
            case 0: next = m[j]; *r[i] = static_cast<const R&>(*r[j]); break;
            case 1: next = { false, v }; if (g.b()) *r[i] = Ok(t); else *r[i] = Ok(std::as_const(t)); break;
            case 2: next = { true, v }; if (g.b()) *r[i] = Err(e); else *r[i] = Err(std::as_const(e)); break;
            case 3: next = m[j]; made = std::make_unique<R>(static_cast<const R&>(*r[j])); break;
            case 4: { if (i == j) break; next = m[j]; *r[i] = std::move(*r[j]); break; }
            case 5: if (g.b()) { next = { true, v }; made = std::make_unique<R>(Err(e)); } else { next = { false, v }; made = std::make_unique<R>(Ok(t)); } break;
            case 6: { T x = r[i]->value_or(Pay<T>::mk(v)); int want = m[i].err ? v : m[i].v; REQUIRE(Pay<T>::rd(x) == want, "value_or gave %d, expected %d", Pay<T>::rd(x), want); break; }
            case 7: { E x = r[i]->error_or(Pay<E>::mk(v)); int want = m[i].err ? m[i].v : v; REQUIRE(Pay<E>::rd(x) == want, "error_or gave %d, expected %d", Pay<E>::rd(x), want); break; }
            }
        }
        catch (Boom& b) { threw = true; REQUIRE(b.id == 77, "a different exception arrived"); }
        Frail::fuse = 0;
        REQUIRE(Pay<T>::rd(t) == v && Pay<E>::rd(e) == v, "%s changed its argument", nm[what]);
        if (threw)
        {
            ++failed; REQUIRE(what != 4, "moving a result copied what it holds");
            // what an assignment from Ok / Err of an lvalue leaves behind when the copy fails is not specified
            if (what == 1 || what == 2) { r[i] = std::make_unique<R>(Ok(Pay<T>::mk(8))); m[i] = { false, 8 }; }
        }
        else
        {
            ++worked;
            if (made) { r[i] = std::move(made); m[i] = next; }
            else if (what < 5) m[i] = next;
            if (what == 4 && i != j) { *r[j] = Ok(Pay<T>::mk(7)); m[j] = { false, 7 }; }
        }
        check(threw ? "a failed operation" : nm[what]);
    }
    if (failed && worked) g.nontrivial();
    (void)fT; (void)fE;
}
PBT_SECTION(result_failing_copies, 300000, 4000000)
{
    LiveCheck lc; int k = (int)g.u(3); g.note("types %s", (const char*[]) { "Frail, Frail", "Frail, int", "int, Frail" }[k]);
    switch (k) { case 0: frail<Frail, Frail>(g); break; case 1: frail<Frail, int>(g); break; default: frail<int, Frail>(g); }
    lc.done("result payload");
}
