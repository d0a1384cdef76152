#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include <deque>
#include "macoro/task.h"
#include "macoro/wrap.h"
#include "macoro/result.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;
// C01: a tree of lazy tasks behaves like the same tree of plain function calls.

struct Event { const char* what; int a; long b; bool operator==(const Event& o) const { return !strcmp(what, o.what) && a == o.a && b == o.b; } };
struct Node;
enum { S_PARK, S_CHILD, S_THROW };
struct St { int kind = 0, v = 0; Node* child = nullptr; Node* other = nullptr; int mode = 0; bool caught = false, mac = false; int inner = 0; };
enum Ty { TINT, TVAL, TMVAL, TREF, TVOID, TYPES };
static const char* tyName[] = { "int", "copyable", "move-only", "reference", "void" };
struct Node { int id = 0; int ty = 0; bool mac = false; std::vector<St> st; int ret = 0; bool throwsLate = false; Val ref{ 0 }; int starts = 0, expect = 0; int retForm = 0; };
static std::vector<Event>* tr; static std::function<void()> parked;
static void ev(const char* w, int a, long b = 0) { tr->push_back({ w, a, b }); }
[[noreturn]] static void throwKind(int kind, int v)
{
    exk::raise(kind % exk::n, v);
}
static void describe() // the exception being handled
{
    try { throw; } catch (broken_promise&) { ev("caught broken promise", 0); } catch (...) { auto s = exk::current(); ev("caught exception of kind", s.kind, s.v); }
}
struct Park
{
    int id; bool mine = false;
    explicit Park(int i) : id(i) {} Park(const Park&) = delete;
    ~Park() { if (mine) parked = nullptr; }
    bool await_ready() { return false; }
    template<class H> void await_suspend(H h) { ev("park", id); REQUIRE(!parked, "two coroutines of one chain are suspended at once"); mine = true; parked = [h] { h.resume(); }; }
    void await_resume() { mine = false; ev("unpark", id); }
};
struct ThrowLate { bool on; int v; ThrowLate(bool o, int x) : on(o), v(x) {} ~ThrowLate() noexcept(false) { if (on) throw Boom(v); } };
enum Mode { RVALUE, LVALUE, LVALUE_TWICE, LVALUE_THEN_RVALUE, RVALUE_TWICE, AGAIN, MOVED, READY_FIRST, WRAPPED, DROPPED, REASSIGNED, EMPTY, HELD, MODES };
static const char* modeName[] = { "as temporary", "as lvalue", "as lvalue twice", "as lvalue then as rvalue", "as rvalue twice", "again after its outcome was captured", "after a move, the source too", "when_ready first", "wrapped", "never (dropped)", "after assigning over another task", "empty task", "through a container" };

template<class T> task<T> node(Node* n);
// receives what an await delivers
template<class T> struct Rd
{
    Node* n; long x = 0; const void* addr[2] = {}; int count = 0;
    template<class U> void operator()(U&& u)
    {
        static_assert(std::is_same_v<std::remove_cvref_t<U>, std::remove_cvref_t<T>>);
        if constexpr (std::is_same_v<T, Val&>) REQUIRE(&u == &n->ref, "the reference delivered by task %d refers to another object", n->id);
        if (count < 2) addr[count++] = std::is_lvalue_reference_v<U&&> ? (const void*)&u : nullptr;
        if constexpr (std::is_same_v<T, int>) x += u;
        else if constexpr (std::is_lvalue_reference_v<U&&>) x += u.get();
        else { auto taken = std::move(u); x += taken.get(); } // as a user would
    }
    bool same() { return count == 2 && addr[0] && addr[0] == addr[1]; }
    template<class R> void wrapped(R&& r) { if (r.has_error()) std::rethrow_exception(r.error()); if constexpr (std::is_same_v<T, int>) x += r.value(); else x += r.value().get(); }
};
template<> struct Rd<void> { Node* n; long x = 0; bool same() { return true; } template<class R> void wrapped(R&& r) { if (r.has_error()) std::rethrow_exception(r.error()); } };
template<class T> static void selfMove(task<T>& t) { auto& same = t; t = std::move(same); }
template<class T> using Res = result<std::remove_cvref_t<T>>;

template<class T> requires(!std::is_void_v<T>) static task<long> natAwait(St* s)
{
    Node* c = s->child; task<T> t, u; std::vector<task<T>> v; Rd<T> rd{ c };
#define AW(...) rd(co_await __VA_ARGS__)
#define TRYAW(...) try { rd(co_await __VA_ARGS__); } catch (...) { describe(); }
#define WHEN(...) co_await __VA_ARGS__
#define WRAP(...) auto r = co_await __VA_ARGS__; rd.wrapped(r)
#include "c01_await.inc"
    co_return rd.x;
}
#undef AW
#undef TRYAW
template<class T> requires(std::is_void_v<T>) static task<long> natAwait(St* s)
{
    Node* c = s->child; task<T> t, u; std::vector<task<T>> v; Rd<T> rd{ c };
#define AW(...) co_await __VA_ARGS__
#define TRYAW(...) try { co_await __VA_ARGS__; } catch (...) { describe(); }
#include "c01_await.inc"
    co_return rd.x;
}
#undef AW
#undef TRYAW
#undef WHEN
#undef WRAP
// capturing an lvalue's value copies it, which move-only values do not allow
template<class T> static task<> tryIt(const task<T>& t, Rd<T>& rd) { try { rd(co_await t); } catch (...) { describe(); } }
template<class R> static void describeError(R& r) { try { std::rethrow_exception(r.error()); } catch (...) { describe(); } }
template<class T> requires(!std::is_void_v<T>) static task<long> macAwait(St* s)
{
    MC_BEGIN(task<long>, s, c = s->child, t = task<T>{}, u = task<T>{}, v = std::vector<task<T>>{}, rd = Rd<T>{ s->child }, r = Res<T>{});
#define AW(...) MC_AWAIT_FN(rd, __VA_ARGS__)
#define TRYAW(...) MC_AWAIT(tryIt<T>(__VA_ARGS__, rd))
#define WHEN(...) MC_AWAIT(__VA_ARGS__)
#define WRAP(...) MC_AWAIT_FN(rd.wrapped, __VA_ARGS__)
#include "c01_await.inc"
    MC_RETURN(rd.x);
    MC_END();
}
#undef AW
#undef TRYAW
template<class T> requires(std::is_void_v<T>) static task<long> macAwait(St* s)
{
    MC_BEGIN(task<long>, s, c = s->child, t = task<T>{}, u = task<T>{}, v = std::vector<task<T>>{}, rd = Rd<T>{ s->child }, r = Res<T>{});
#define AW(...) MC_AWAIT(__VA_ARGS__)
#define TRYAW(...) MC_AWAIT_TRY(r, __VA_ARGS__); if (r.has_error()) describeError(r)
#include "c01_await.inc"
    MC_RETURN(rd.x);
    MC_END();
}
#undef AW
#undef TRYAW
// the macro flavours read references as values when capturing (a result of a reference holds a copy)
static task<long> awaitChild(St* s)
{
    switch (s->child->ty)
    {
    case TINT: return s->mac ? macAwait<int>(s) : natAwait<int>(s);
    case TVAL: return s->mac ? macAwait<Val>(s) : natAwait<Val>(s);
    case TMVAL: return s->mac ? macAwait<MVal>(s) : natAwait<MVal>(s);
    case TREF: return s->mac ? macAwait<Val&>(s) : natAwait<Val&>(s);
    default: return s->mac ? macAwait<void>(s) : natAwait<void>(s);
    }
}
// the bodies
static void begin(Node* n) { ++n->starts; ev("start", n->id); n->ref = Val(n->ret); }
template<class T> static task<T> natNode(Node* n, Val arg)
{
    begin(n); if (arg.get() != n->id) ev("argument damaged", n->id);
    ThrowLate late(n->throwsLate, n->ret); bool thrown = true; struct Off { ThrowLate& l; bool& t; ~Off() { if (t) l.on = false; } } off{ late, thrown };
    for (auto& s : n->st)
    {
        if (s.kind == S_PARK) co_await Park(s.v);
        else if (s.kind == S_THROW) throwKind(s.v, s.v);
        else if (s.caught) { try { long x = co_await awaitChild(&s); ev("value", n->id, x); } catch (...) { describe(); } }
        else { long x = co_await awaitChild(&s); ev("value", n->id, x); }
    }
    ev("end", n->id); if (arg.get() != n->id) ev("argument damaged", n->id);
    thrown = false;
    if constexpr (std::is_same_v<T, int>) { if (n->retForm == 0) co_return n->ret; short q = (short)n->ret; co_return q; }
    else if constexpr (std::is_same_v<T, Val&>) co_return n->ref;
    else if constexpr (std::is_same_v<T, Val>) { if (n->retForm == 0) co_return Val(n->ret); if (n->retForm == 1) co_return n->ret; Val q(n->ret); if (n->retForm == 2) co_return q; co_return n->ref; }
    else if constexpr (std::is_same_v<T, MVal>) { if (n->retForm == 0) co_return MVal(n->ret); if (n->retForm == 1) co_return n->ret; MVal q(n->ret); co_return q; }
}
template<class T> static task<T> macNode(Node* n, Val a)
{
    MC_BEGIN(task<T>, n, arg = std::move(a), i = 0, x = long{}, r = result<long>{});
    begin(n); if (arg.get() != n->id) ev("argument damaged", n->id);
    for (; i < (int)n->st.size(); ++i)
    {
        if (n->st[i].kind == S_PARK) { MC_AWAIT(Park(n->st[i].v)); }
        else if (n->st[i].kind == S_THROW) throwKind(n->st[i].v, n->st[i].v);
        else if (n->st[i].caught) { MC_AWAIT_TRY(r, awaitChild(&n->st[i])); if (r.has_error()) describeError(r); else ev("value", n->id, r.value()); }
        else { MC_AWAIT_SET(x, awaitChild(&n->st[i])); ev("value", n->id, x); }
    }
    ev("end", n->id); if (arg.get() != n->id) ev("argument damaged", n->id);
    if constexpr (std::is_same_v<T, int>) { if (n->retForm == 0) MC_RETURN(n->ret); short q = (short)n->ret; MC_RETURN(q); }
    else if constexpr (std::is_same_v<T, Val&>) MC_RETURN(n->ref);
    else if constexpr (std::is_same_v<T, Val>) { if (n->retForm == 0) MC_RETURN(Val(n->ret)); if (n->retForm == 1) MC_RETURN(n->ret); Val q(n->ret); if (n->retForm == 2) MC_RETURN(std::move(q)); MC_RETURN(n->ref); }
    else if constexpr (std::is_same_v<T, MVal>) { if (n->retForm == 0) MC_RETURN(MVal(n->ret)); if (n->retForm == 1) MC_RETURN(n->ret); MVal q(n->ret); MC_RETURN(std::move(q)); }
    MC_END();
}
template<class T> task<T> node(Node* n) { return n->mac ? macNode<T>(n, Val(n->id)) : natNode<T>(n, Val(n->id)); }

// ---------------------------------------------------------------- the model: plain calls
static void modelBody(Node* n);
static long valueOf(Node* c, int times, bool movedSecond)
{
    if (c->ty == TVOID) return 0;
    if (times == 1) return c->ret;
    return (long)c->ret + (movedSecond && (c->ty == TVAL || c->ty == TMVAL) ? -999 : c->ret);
}
static long modelAwait(St& s)
{
    Node* c = s.child;
    switch (s.mode)
    {
    case RVALUE: case LVALUE: case WRAPPED: case HELD: case REASSIGNED: modelBody(c); return valueOf(c, 1, false);
    case LVALUE_TWICE: modelBody(c); ev("same object", c->id, 1); return valueOf(c, 2, false);
    case LVALUE_THEN_RVALUE: modelBody(c); return valueOf(c, 2, false);
    case RVALUE_TWICE: modelBody(c); return valueOf(c, 2, true);
    case AGAIN: try { modelBody(c); } catch (...) { describe(); throw; } return valueOf(c, 2, false);
    case MOVED: ev("caught broken promise", 0); ev("source is ready", c->id, 0); modelBody(c); return valueOf(c, 1, false);
    case READY_FIRST: { ev("ready before", c->id, 0); std::exception_ptr e; try { modelBody(c); } catch (...) { e = std::current_exception(); } ev("ready after", c->id, 1); if (e) std::rethrow_exception(e); return valueOf(c, 1, false); }
    case DROPPED: ev("ready dropped", c->id, 0); return 0;
    default: ev("caught broken promise", 0); ev("empty is ready", c->id, 0); return 0;
    }
}
static void modelBody(Node* n)
{
    ++n->expect; ev("start", n->id);
    for (auto& s : n->st)
    {
        if (s.kind == S_PARK) { ev("park", s.v); ev("unpark", s.v); }
        else if (s.kind == S_THROW) throwKind(s.v, s.v);
        else if (s.caught) { try { long x = modelAwait(s); ev("value", n->id, x); } catch (...) { describe(); } }
        else { long x = modelAwait(s); ev("value", n->id, x); }
    }
    ev("end", n->id);
    if (n->throwsLate) throw Boom(n->ret);
}

// ---------------------------------------------------------------- generator
static std::deque<Node>* nodes; static int nextId;
static Node* genNode(pbt::Gen& g, int depth, int ty)
{
    nodes->emplace_back(); Node* n = &nodes->back(); n->id = ++nextId; n->ty = ty; n->mac = g.b(); n->ret = (int)g.u(1000); n->retForm = (int)g.u(4);
    if (ty == TREF && n->mac && false) n->mac = false;
    n->throwsLate = !n->mac && g.chance(1, 40);
    int k = g.size(depth == 0 ? 6 : 3);
    for (int i = 0; i < k; ++i)
    {
        St s; s.kind = g.weighted({ 2, depth < 4 ? 4 : 0, 0 }); if (g.chance(1, 12)) s.kind = S_THROW; s.v = (int)g.u(100);
        if (s.kind == S_CHILD)
        {
            s.child = genNode(g, depth + 1, (int)g.u(TYPES)); s.mode = (int)g.u(MODES); s.caught = g.b(); s.mac = g.b();
            if (s.mode == REASSIGNED || s.mode == HELD) s.other = genNode(g, 4, s.child->ty);
            // capturing a reference in a macro copies it
        }
        n->st.push_back(s);
    }
    return n;
}
static void show(pbt::Gen& g, Node* n, int ind)
{
    g.note("%*s%s %s task %d returns %d (form %d)%s", ind, "", n->mac ? "macro" : "native", tyName[n->ty], n->id, n->ret, n->retForm, n->throwsLate ? ", a local's destructor throws" : "");
    for (auto& s : n->st) { if (s.kind == S_PARK) g.note("%*s  suspend %d", ind, "", s.v); else if (s.kind == S_THROW) g.note("%*s  throw %d kind %d", ind, "", s.v, s.v % 4); else { g.note("%*s  await child %s%s, by %s code", ind, "", modeName[s.mode], s.caught ? ", catching" : "", s.mac ? "macro" : "native"); show(g, s.child, ind + 4); } }
}
static Own driver(St* s) { try { long x = co_await awaitChild(s); ev("outcome", 0, x); } catch (...) { describe(); } }
static Own driverMac(St* s) { try { auto t = awaitChild(s); long x = co_await t; ev("outcome", 0, x); } catch (...) { describe(); } }
static St genRoot(pbt::Gen& g)
{
    St root; root.kind = S_CHILD; root.child = genNode(g, 0, (int)g.u(TYPES)); root.mode = (int)g.u(MODES); root.mac = g.b();
    if (root.mode == REASSIGNED || root.mode == HELD) root.other = genNode(g, 4, root.child->ty);
    if (root.mode == DROPPED || root.mode == EMPTY) root.mode = RVALUE;
    g.note("root awaited %s by %s code", modeName[root.mode], root.mac ? "macro" : "native"); show(g, root.child, 2);
    return root;
}
PBT_SECTION(task_model, 60000, 2500000)
{
    std::deque<Node> store; nodes = &store; nextId = 0; parked = nullptr;
    St root = genRoot(g);
    std::vector<Event> want, got;
    tr = &want; try { long x = modelAwait(root); ev("outcome", 0, x); } catch (...) { describe(); }
    long before = Track::live; tr = &got;
    {
        Own d = g.b() ? driver(&root) : driverMac(&root);
        REQUIRE(got.empty(), "something ran before the task was awaited");
        d.start(); int steps = 0;
        while (parked) { auto k = std::exchange(parked, nullptr); k(); if (++steps > 2000) g.fail("runaway"); }
        REQUIRE(d.done(), "the awaiting coroutine never finished");
    }
    REQUIRE(Track::live == before, "%ld objects left", Track::live - before);
    size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
    if (i != want.size() || i != got.size())
    {
        for (size_t j = 0; j < i; ++j) g.note("   both: %s %d %ld", want[j].what, want[j].a, want[j].b);
        for (size_t j = i; j < want.size() && j < i + 10; ++j) g.note("   expected: %s %d %ld", want[j].what, want[j].a, want[j].b);
        for (size_t j = i; j < got.size() && j < i + 10; ++j) g.note("   happened: %s %d %ld", got[j].what, got[j].a, got[j].b);
        g.fail("event %zu: expected %s %d %ld, happened %s %d %ld", i, i < want.size() ? want[i].what : "(end)", i < want.size() ? want[i].a : 0, i < want.size() ? want[i].b : 0, i < got.size() ? got[i].what : "(end)", i < got.size() ? got[i].a : 0, i < got.size() ? got[i].b : 0);
    }
    for (auto& n : store) REQUIRE(n.starts == n.expect, "the body of task %d ran %d times, expected %d", n.id, n.starts, n.expect);
    int parks = 0, vals = 0; for (auto& e : got) { parks += !strcmp(e.what, "park"); vals += !strcmp(e.what, "value"); if (!strncmp(e.what, "caught", 6)) g.label("exceptions"); }
    if (parks) g.label("suspends"); if (vals >= 2 && parks) g.nontrivial();
    for (auto& n : store) for (auto& s : n.st) if (s.kind == S_CHILD && n.starts) g.count(modeName[s.mode]);
}
// the same programs, the root destroyed at a suspension (C03)
PBT_SECTION(task_drop, 60000, 2500000)
{
    std::deque<Node> store; nodes = &store; nextId = 0; parked = nullptr;
    St root = genRoot(g);
    std::vector<Event> want, got;
    tr = &want; try { long x = modelAwait(root); ev("outcome", 0, x); } catch (...) { describe(); }
    int parks = 0; for (auto& e : want) parks += !strcmp(e.what, "park");
    int dropAt = parks ? (int)g.u(parks) : 0; int way = (int)g.u(3);
    if (g.chance(1, 20)) dropAt = -1;
    g.note("dropped at suspension %d of %d, way %d", dropAt, parks, way);
    long before = Track::live; tr = &got;
    {
        Own d = driver(&root), other = driver(&root);
        if (dropAt >= 0)
        {
            d.start();
            for (int i = 0; i < dropAt; ++i) { REQUIRE(parked, "the chain is not suspended"); auto k = std::exchange(parked, nullptr); k(); }
        }
        if (way == 0) d.reset(); else if (way == 1) d = std::move(other); else { std::vector<Own> v; v.push_back(std::move(d)); v.clear(); }
        REQUIRE(!parked, "the suspended awaiter was not destroyed");
    }
    REQUIRE(Track::live == before, "%ld objects left", Track::live - before);
    if (dropAt < 0) REQUIRE(got.empty(), "a dropped task ran");
    for (auto& n : store) REQUIRE(n.starts <= n.expect, "the body of task %d ran %d times, expected %d", n.id, n.starts, n.expect);
    if (parks >= 2 && store.size() >= 3) g.nontrivial();
}

// ---------------------------------------------------------------- the value returned cannot be copied
// The body returns an object by copy and the copy fails: that is how the body ends.
#include "vsched_on.h"
#include "macoro/when_all.h"
#include "macoro/async_scope.h"
#include "vsched_off.h"
template<class K> K frNat(const Frail& src, int& after, Ev* e) { struct D { int& n; ~D() { ++n; } } d{ after }; if (e) co_await *e; co_return src; }
template<class K> K frMac(const Frail& src, int& after, Ev* e)
{
    MC_BEGIN(K, &src, &after, e, d = std::shared_ptr<int>(&after, [](int* p) { ++*p; }));
    if (e) MC_AWAIT(*e);
    MC_RETURN(src);
    MC_END();
}
template<class K> K frRef(bool mac, const Frail& src, int& after, Ev* e) { return mac ? frMac<K>(src, after, e) : frNat<K>(src, after, e); }
static const char* frHow[] = { "lvalue await", "rvalue await", "when_ready, then lvalue await twice", "wrapped", "through another task", "macro consumer", "when_all_ready", "added to a scope" };
template<class K> task<void> frMacUse(K t, int& got, int& err)
{
    MC_BEGIN(task<void>, t = std::move(t), &got, &err, r = result<Frail>{});
    MC_AWAIT_TRY(r, std::move(t));
    if (r.has_error()) { try { std::rethrow_exception(r.error()); } catch (Boom& b) { err = b.id; } } else got = r.value().get();
    MC_END();
}
template<class K> task<Frail> frThrough(K t) { co_return co_await std::move(t); }
template<class K> Own frUse(K t, int how, int& got, int& err, int& times)
{
    auto guard = [&](auto&& f) -> bool { try { f(); return true; } catch (Boom& b) { err = b.id; return false; } };
    try
    {
        switch (how)
        {
        case 0: { auto&& x = co_await t; got = x.get(); break; }
        case 1: { auto&& x = co_await std::move(t); got = x.get(); break; }
        case 2:
            co_await t.when_ready();
            for (int i = 0; i < 2; ++i) { bool ok = true; try { auto&& x = co_await t; got = x.get(); } catch (Boom& b) { ok = false; err = b.id; } times += !ok; }
            break;
        case 3: { auto r = co_await wrap(std::move(t)); if (r.has_error()) std::rethrow_exception(r.error()); got = r.value().get(); break; }
        case 4: { auto&& x = co_await frThrough(std::move(t)); got = x.get(); break; }
        case 5: co_await frMacUse(std::move(t), got, err); break;
        case 6: { auto r = co_await when_all_ready(std::move(t)); guard([&] { got = std::get<0>(r).result().get(); }); break; }
        case 7: { async_scope s; auto h = s.add(std::move(t)); bool ok = true; int e2 = 0; try { auto&& x = co_await std::move(h); got = x.get(); } catch (Boom& b) { ok = false; e2 = b.id; } co_await s.join(); if (!ok) err = e2; break; }
        }
    }
    catch (Boom& b) { err = b.id; }
}
PBT_SECTION(return_copy_fails, 60000, 1000000)
{
    LiveCheck lc;
    {
        bool mac = g.b(), eager = g.b(), fail = g.chance(2, 3), susp = g.b(); int how = (int)g.u(8), v = 1 + (int)g.u(100), after = 0, got = 0, err = 0, times = 0;
        g.note("%s %s body returns a constant object %s, %s; %s", mac ? "macro" : "native", eager ? "eager" : "lazy", fail ? "whose copy fails" : "", susp ? "suspends first" : "at once", frHow[how]);
        Frail src(v); Ev e; Frail::fuse = 0;
        auto arm = [&] { Frail::fuse = fail ? 1 : 0; };
        auto go = [&](auto make) {
            if (eager && !susp) arm();
            auto t = make(); if (eager && !mac) REQUIRE(after == (susp ? 0 : 1), "an eager body that does not suspend must have ended");
            if (!eager && !susp) arm();
            Own o = frUse(std::move(t), how, got, err, times); o.start();
            if (susp) { REQUIRE(!o.done(), "completed before its body"); arm(); e.fire(); }
            Frail::fuse = 0;
            REQUIRE(o.done(), "the consumer was not resumed"); o.rethrow();
            if (!mac) REQUIRE(after == 1, "the body's locals were destroyed %d times when it had ended", after); // a macro body's live as long as its frame
            o.reset(); REQUIRE(after == 1, "the body's locals were destroyed %d times", after);
        };
        if (eager) go([&] { return frRef<eager_task<Frail>>(mac, src, after, susp ? &e : nullptr); });
        else go([&] { return frRef<task<Frail>>(mac, src, after, susp ? &e : nullptr); });
        REQUIRE(err == (fail ? 77 : 0), "the consumer saw error %d", err);
        REQUIRE(got == (fail ? 0 : v), "the consumer saw value %d, expected %d", got, fail ? 0 : v);
        if (how == 2) REQUIRE(times == (fail ? 2 : 0), "awaiting twice failed %d times", times);
        REQUIRE(src.get() == v, "the object returned by copy changed");
        if (fail) g.nontrivial();
    }
    lc.done();
}
