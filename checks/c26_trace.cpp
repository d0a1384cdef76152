#include "common.h"
#include "vsched_on.h"
#include <optional>
#include <memory>
#include <deque>
#include "macoro/task.h"
#include "macoro/wrap.h"
#include "macoro/result.h"
#include "macoro/when_all.h"
#include "macoro/sync_wait.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "macoro/inline_scheduler.h"
#include "macoro/start_on.h"
#include "macoro/trace.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;
// C26: a trace asked for anywhere in a generated tree of awaits names the pending await of every frame outward.
struct Node; struct St;
enum Kind { K_ASK, K_ASK_HELD, K_PARK, K_RV, K_LV, K_READY, K_WRAP, K_TRY, K_MAKE_TASK, K_EAGER, K_EAGER_LV, K_MAKE_EAGER, K_START_ON, K_PACK, K_VECTOR, K_BLOCKING, K_ASYNC_SCOPE, K_ALL_SCOPE, KINDS };
enum { K_NESTED = 99 };
static const char* kname[] = { "ask", "ask, awaiting a held request", "suspend", "await child", "await child as lvalue", "await readiness", "await wrapped", "try-await", "await make_task", "await eager", "await eager lvalue", "await make_eager", "await start_on", "await pack", "await vector", "block on child", "async_scope", "when_all_scope" };
struct St { int kind = 0, ty = 0, v = 0; std::vector<Node*> kids; };
struct Node { int id = 0; bool mac = false; std::vector<St> st; Node* parent = nullptr; int line = -1; int ends = 0, starts = 0; Val ref{ 3 }; };
static pbt::Gen* G; static std::deque<Node>* store; static std::vector<struct Park*>* parks; static int nextId; static long asks, deepest;
struct Park
{
    int id; std::function<void()> k; bool listed = false;
    explicit Park(int i) : id(i) {} Park(const Park&) = delete;
    bool await_ready() { return false; }
    template<class H> void await_suspend(H h) { k = [h] { h.resume(); }; parks->push_back(this); }
    void await_resume() {}
};
static Node* pseudo(Node* parent, int line) { store->emplace_back(); Node* p = &store->back(); p->parent = parent; p->line = line; return p; }
static Node* kid(Node* n, St* s, int k) { Node* c = s->kids[k]; c->parent = n; return c; }
static Node* root(St* s, int k) { Node* c = s->kids[k]; c->parent = nullptr; return c; }

static void verify(Node* n, trace t)
{
    ++asks; std::vector<int> want, got;
    for (Node* p = n; p; p = p->parent) want.push_back(p->line);
    for (auto& l : t.stack) if (strstr(l.file_name(), "c26_")) got.push_back((int)l.line());
    deepest = std::max(deepest, (long)want.size());
    std::string a, b; for (int x : want) a += " " + std::to_string(x); for (int x : got) b += " " + std::to_string(x);
    REQUIRE(!t.stack.empty() && strstr(t.stack[0].file_name(), "c26_"), "the first entry is not where the trace was asked for");
    REQUIRE(want == got, "the trace asked for by %d (innermost first) should name lines%s, names%s\n%s", n->id, a.c_str(), b.c_str(), t.str().c_str());
    // the text lists the same entries
    std::stringstream ss(t.str()); std::string line; size_t k = 0;
    while (std::getline(ss, line)) { std::string e = std::to_string(k) + " " + t.stack[k].file_name() + ":" + std::to_string(t.stack[k].line()); REQUIRE(k < t.stack.size() && line == e, "line %zu of the text is '%s', expected '%s'", k, line.c_str(), e.c_str()); ++k; }
    REQUIRE(k == t.stack.size(), "the text has %zu lines for %zu entries", k, t.stack.size());
}
struct Ver { Node* n; void operator()(trace t) { verify(n, std::move(t)); } };
static inline_scheduler inl;
template<class T> static task<T> child(Node* n);
template<class T> static eager_task<T> eager(Node* n);
template<class T> static std::vector<task<T>> many(Node* n, St* s) { std::vector<task<T>> v; for (size_t k = 0; k < s->kids.size(); ++k) v.push_back(child<T>(kid(n, s, (int)k))); return v; }
static Node* kidOf(Node* n, St* s, int k, int) { return kid(n, s, k); }
static int childId(Node*, St* s) { return s->kids[0]->id; }
static Own foreign(Node* pn, Node* c) { c->parent = pn; pn->line = __LINE__; int v = co_await child<int>(c); REQUIRE(v == c->id, "value"); }
// blocking waits: the work does not suspend
static void blocking(Node* n, St* s)
{
    Node* c = s->kids[0]; Node* p = pseudo(nullptr, -1); c->parent = p; int v = 0;
    switch (s->ty % 6)
    {
    case 0: p->line = __LINE__; v = sync_wait(child<int>(c)); break;
    case 1: p->line = __LINE__; v = child<int>(c) | sync_wait(); break;
    case 2: { p->line = __LINE__; auto b = make_blocking(child<int>(c)); v = b.get(); break; }
    case 3: { p->line = __LINE__; auto b = child<int>(c) | make_blocking(); v = b.get(); break; }
    case 4: { auto t = child<int>(c); p->line = __LINE__; v = sync_wait(t); break; }
    default: { Own o = foreign(p, c); o.start(); REQUIRE(o.done(), "the work suspended"); o.rethrow(); v = c->id; }
    }
    REQUIRE(v == c->id, "blocking on %d gave %d", c->id, v);
}
static task<> scopeUser(Node* n, St* s)
{
    Node me; me.parent = n; me.id = -1; async_scope sc; std::vector<scoped_task<int>> hold;
    for (size_t k = 0; k < s->kids.size(); ++k)
    {
        Node* p = pseudo(nullptr, __LINE__ + 1); s->kids[k]->parent = p;
        auto h = sc.add(child<int>(s->kids[k]));
        if (k % 2) hold.push_back(std::move(h));
    }
    me.line = __LINE__; verify(&me, co_await get_trace{}); ++asks;
    for (auto& h : hold) { me.line = __LINE__; (void)co_await std::move(h); }
    me.line = __LINE__; co_await sc;
    me.line = __LINE__; verify(&me, co_await get_trace{});
}
static when_all_scope allScope(Node* n, St* s)
{
    std::vector<scoped_task<int>> hold;
    for (size_t k = 0; k < s->kids.size(); ++k)
    {
        Node* c = s->kids[k]; Node* p = pseudo(n, 0); c->parent = p;
        if (k % 3 == 0) { p->line = __LINE__; auto h = co_await scoped(child<int>(c)); hold.push_back(std::move(h)); }
        else if (k % 3 == 1) { p->line = __LINE__; (void)co_await (child<int>(c) | scoped()); }
        else { p->line = __LINE__; int v = co_await child<int>(c); REQUIRE(v == c->id, "value"); }
    }
    for (auto& h : hold) (void)co_await std::move(h);
}
using PK = decltype(when_all_ready(std::declval<task<int>>(), std::declval<task<void>>()));
using VC = decltype(when_all_ready(std::declval<std::vector<task<int>>>()));
#define AT n->line = __LINE__
template<class T, bool lazy> static task<T, lazy> natBody(Node* n)
{
    ++n->starts; int i = 0; St* s = nullptr; task<int> t; task<void> tv; task<Val&> tr; eager_task<int> te; std::optional<PK> pk; std::optional<VC> vc; get_trace held;
#define ASK verify(n, co_await get_trace{})
#define ASK_HELD { get_trace q; Ver{ n }(co_await std::move(q)); }
#define AW(...) { int v = co_await __VA_ARGS__; REQUIRE(v == s->kids[0]->id, "value %d", v); }
#define AWR(...) { Val& v = co_await __VA_ARGS__; REQUIRE(&v == &s->kids[0]->ref, "reference"); }
#define AWV(...) co_await __VA_ARGS__
#define AWW(...) { auto r = co_await __VA_ARGS__; REQUIRE(r.has_value(), "failed"); }
#define TRYAW(...) try { int v = co_await __VA_ARGS__; REQUIRE(v == s->kids[0]->id, "value %d", v); } catch (Boom&) { }
#define TRYAWV(...) try { co_await __VA_ARGS__; } catch (Boom&) { }
#include "c26_body.inc"
#undef ASK
#undef ASK_HELD
#undef AW
#undef AWR
#undef AWV
#undef AWW
#undef TRYAW
#undef TRYAWV
    if constexpr (std::is_same_v<T, int>) co_return n->id; else if constexpr (std::is_same_v<T, Val&>) co_return n->ref;
}
struct Same { St* s; void operator()(int v) { REQUIRE(v == s->kids[0]->id, "value %d", v); } void operator()(Val& v) { REQUIRE(&v == &s->kids[0]->ref, "reference"); } };
struct Res { template<class R> void operator()(R&& r) { REQUIRE(r.has_value(), "failed"); } };
template<class T, bool lazy> static task<T, lazy> macBody(Node* n)
{
    using TT = task<T, lazy>;
    MC_BEGIN(TT, n, i = 0, s = (St*)nullptr, t = task<int>{}, tv = task<void>{}, tr = task<Val&>{}, te = eager_task<int>{}, pk = std::optional<PK>{}, vc = std::optional<VC>{}, r = result<int>{}, rv = result<void>{});
    ++n->starts;
#define ASK MC_AWAIT_FN(Ver{ n }, get_trace{})
#define ASK_HELD MC_AWAIT_FN(Ver{ n }, get_trace())
#define AW(...) MC_AWAIT_FN(Same{ s }, __VA_ARGS__)
#define AWR(...) MC_AWAIT_FN(Same{ s }, __VA_ARGS__)
#define AWV(...) MC_AWAIT(__VA_ARGS__)
#define AWW(...) MC_AWAIT_FN(Res{}, __VA_ARGS__)
#define TRYAW(...) MC_AWAIT_TRY(r, __VA_ARGS__)
#define TRYAWV(...) MC_AWAIT_TRY(rv, __VA_ARGS__)
#include "c26_body.inc"
    if constexpr (std::is_same_v<T, int>) MC_RETURN(n->id); else if constexpr (std::is_same_v<T, Val&>) MC_RETURN(n->ref);
    MC_END();
}
template<class T> static task<T> child(Node* n) { return n->mac ? macBody<T, true>(n) : natBody<T, true>(n); }
template<class T> static eager_task<T> eager(Node* n) { return n->mac ? macBody<T, false>(n) : natBody<T, false>(n); }

static Node* gen(pbt::Gen& g, int depth, bool sync)
{
    store->emplace_back(); Node* n = &store->back(); n->id = ++nextId; n->mac = g.b();
    int len = depth < 8 ? g.size(depth == 0 ? 5 : 3) : 1;
    for (int k = 0; k < len; ++k)
    {
        St s; s.kind = depth >= 8 || store->size() > 80 ? (g.b() ? K_ASK : K_PARK) : g.weighted({ 6, 1, 4, 8, 3, 2, 3, 2, 3, 1, 1, 1, 1, 3, 2, 2, 1, 2 }); s.ty = (int)g.u(3); s.v = (int)g.u(50);
        if (sync && s.kind == K_PARK) s.kind = K_ASK;
        int kids = 0; bool ksync = sync;
        switch (s.kind) { case K_ASK: case K_ASK_HELD: case K_PARK: break; case K_PACK: kids = 3; break; case K_VECTOR: kids = (int)g.u(4); break; case K_ASYNC_SCOPE: case K_ALL_SCOPE: kids = (int)g.u(5); break; case K_BLOCKING: s.ty = (int)g.u(6); kids = 1; ksync = true; break; default: kids = 1; }
        for (int q = 0; q < kids; ++q) s.kids.push_back(gen(g, depth + 1, ksync));
        n->st.push_back(std::move(s));
    }
    if (n->st.empty() || g.chance(1, 3)) n->st.push_back(St{ K_ASK });
    return n;
}
// a long chain of coroutines, each awaiting the next in one of the ways that keep the chain, above a tree
static Node* chain(pbt::Gen& g, int len)
{
    static const int kinds[] = { K_RV, K_LV, K_READY, K_WRAP, K_TRY, K_MAKE_TASK, K_VECTOR, K_ALL_SCOPE };
    Node* c = gen(g, 7, false); c->st.push_back(St{ K_ASK });
    while (len--)
    {
        store->emplace_back(); Node* n = &store->back(); n->id = ++nextId; n->mac = g.b();
        St s; s.kind = kinds[g.weighted({ 8, 2, 2, 3, 2, 2, 2, 1 })]; s.ty = (int)g.u(3); s.kids.push_back(c); n->st.push_back(std::move(s));
        if (g.chance(1, 8)) n->st.push_back(St{ K_ASK });
        c = n;
    }
    return c;
}
static void show(pbt::Gen& g, Node* n, int ind)
{
    g.note("%*s%s coroutine %d", ind, "", n->mac ? "macro" : "native", n->id);
    for (auto& s : n->st) { g.note("%*s  %s (%d)", ind, "", kname[s.kind], s.ty); g.count(kname[s.kind]); for (auto* c : s.kids) show(g, c, ind < 60 ? ind + 4 : ind); }
}
PBT_SECTION(trace_model, 30000, 2500000)
{
    std::deque<Node> st; store = &st; std::vector<Park*> pl; parks = &pl; G = &g; nextId = 0; asks = deepest = 0;
    Node* n = g.chance(1, 16) ? chain(g, g.b() ? (int)g.u(12) : (int)g.u(200)) : gen(g, 0, false); size_t made = st.size(); int way = (int)g.u(4); show(g, n, 2); g.note("root way %d", way);
    long steps = 0;
    auto drive = [&] { while (!pl.empty()) { size_t i = g.u(pl.size()); Park* p = pl[i]; pl.erase(pl.begin() + i); auto k = std::move(p->k); k(); if (++steps > 5000) g.fail("runaway"); } };
    Node* p = pseudo(nullptr, -1);
    if (way == 0) { Own o = foreign(p, n); o.start(); drive(); REQUIRE(o.done(), "the root never finished"); o.rethrow(); }
    else if (way == 1) { n->parent = nullptr; auto e = eager<int>(n); drive(); REQUIRE(e.is_ready(), "the root never finished"); }
    else if (way == 2) { n->parent = p; p->line = __LINE__; auto b = make_blocking(child<int>(n)); drive(); REQUIRE(b.get() == n->id, "value"); }
    else { n->parent = p; auto t = child<int>(n); Own o = [](task<int>& t, Node* p) -> Own { p->line = __LINE__; (void)co_await t; }(t, p); o.start(); drive(); REQUIRE(o.done(), "the root never finished"); o.rethrow(); }
    for (size_t i = 0; i < made; ++i) if (st[i].id) REQUIRE(st[i].starts <= 1 && st[i].ends == st[i].starts, "body %d started %d times and ended %d times", st[i].id, st[i].starts, st[i].ends);
    g.count("traces", asks); if (deepest >= 6) g.label("six frames or more"); if (deepest >= 64) g.label("64 frames or more");
    if (asks >= 2 && deepest >= 4) g.nontrivial();
}
