#include "common.h"
#include "vsched_on.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "macoro/when_all_scope.h"
#include "macoro/sync_wait.h"
#include "all_macoro_src.inc"
#include "zoo.h"
#include "vsched_off.h"
using namespace macoro;

struct Item { XEv ev; Plan p; Out o; int obj = 0; int kind = 0, ty = 0; bool inner = false; int got = 0; };
enum OpK { Spawn, AwaitH, DropH, Own_, Nest, Poll };
struct Op { int k; int i; int flag; };
struct Prog
{
    std::vector<std::unique_ptr<Item>> it; std::vector<Op> ops; bool throws = false; Mark mark; XEv bodyEv; std::vector<std::unique_ptr<Prog>> nested;
    int at = -1, bodyDone = 0, spawned = 0; int nOwn = 0; bool running = false;
    bool awaiting = false;
    bool allDone() { for (auto& x : it) if (x->p.starts && !x->p.ends) return false; for (auto& n : nested) if (!n->allDone()) return false; return bodyDone == 1; }
};
struct Holder
{
    std::variant<std::monostate, scoped_task<int>, scoped_task<void>, scoped_task<MVal>, scoped_task<int&>> v;
};
template<class T> static auto spawnIt(Item& x, bool pipe)
{
    // a prvalue wrapped for the group
    if constexpr (std::is_same_v<T, int>) return zNatTask<int>(x.p); else if constexpr (std::is_same_v<T, MVal>) return zMacTask<MVal>(x.p);
    else if constexpr (std::is_void_v<T>) return Custom<void, 0>(x.p); else return zNatTask<int&>(x.p);
}
static void step(Prog& P, int i) { vs::Quiet q; if (P.at != i - 1) pbt::gen().fail("the body ran out of order: step %d after %d", i, P.at); P.at = i; }
static when_all_scope body(Prog& P);
static void seeAll(Prog& P, const char* who) { for (auto& x : P.it) { bool in; { vs::Quiet q; in = x->p.starts > 0; } if (in) x->p.seen(who); } P.mark.see(who); for (auto& n : P.nested) { bool in; { vs::Quiet q; in = n->at >= 0; } if (in) seeAll(*n, who); } }
static void checkDone(Prog& P, const char* who) { { vs::Quiet q; if (!P.allDone()) pbt::gen().fail("%s completed before its body and all spawned work had finished", who); } seeAll(P, who); }
static when_all_scope body(Prog& P)
{
    std::vector<Holder> h(P.it.size());
    step(P, 0);
    for (size_t n = 0; n < P.ops.size(); ++n)
    {
        Op op = P.ops[n];
        if (op.k == Spawn)
        {
            Item& x = *P.it[op.i];
            if (x.ty == 0) { if (op.flag) h[op.i].v = co_await (zNatTask<int>(x.p) | scoped()); else h[op.i].v = co_await scoped(zMacTask<int>(x.p)); }
            else if (x.ty == 1) { if (op.flag) h[op.i].v = co_await scoped(Custom<void, 2>(x.p)); else h[op.i].v = co_await scoped(zNatEager<void>(x.p)); }
            else if (x.ty == 2) h[op.i].v = co_await scoped(zMacTask<MVal>(x.p));
            else { if (op.flag) h[op.i].v = co_await (MemberAw<int&>{ &x.p } | scoped()); else h[op.i].v = co_await scoped(zNatTask<int&>(x.p)); }
            vs::Quiet q; if (x.p.starts != 1) pbt::gen().fail("spawned work was started %d times at the point of spawning", x.p.starts); ++P.spawned;
        }
        else if (op.k == AwaitH)
        {
            Item& x = *P.it[op.i]; { vs::Quiet q; P.awaiting = true; }
            try
            {
                if (x.ty == 0) { int v = co_await std::move(std::get<1>(h[op.i].v)); vs::Quiet q; x.o.kind = 1; x.o.v = v; }
                else if (x.ty == 1) { co_await std::move(std::get<2>(h[op.i].v)); vs::Quiet q; x.o.kind = 1; x.o.v = x.p.value; }
                else if (x.ty == 2) { MVal v = co_await std::move(std::get<3>(h[op.i].v)); vs::Quiet q; x.o.kind = 1; x.o.v = v.get(); }
                else { int& v = co_await std::move(std::get<4>(h[op.i].v)); vs::Quiet q; x.o.kind = 1; x.o.v = v; x.o.wrongRef = &v != x.p.ref; }
            }
            catch (...) { x.o.caught(); }
            h[op.i].v = std::monostate{};
            vs::Quiet q; ++x.got; if (!x.p.ends) pbt::gen().fail("spawned task delivered its result before it finished");
        }
        else if (op.k == DropH) h[op.i].v = std::monostate{};
        else if (op.k == Own_) co_await P.bodyEv;
        else if (op.k == Nest) { try { co_await body(*P.nested[op.i]); } catch (async_scope_exception&) {} checkDone(*P.nested[op.i], "nested group"); }
        step(P, (int)n + 1);
    }
    P.mark.set(); { vs::Quiet q; ++P.bodyDone; }
    if (P.throws) throw Boom(-5);
}
struct Fire { XEv* ev; int n; };
static void genProg(pbt::Gen& g, Prog& P, std::vector<Fire>& f, int depth, int& id, std::string ind)
{
    int n = g.size(depth ? 4 : 7); std::vector<int> held;
    for (int k = 0; k < n; ++k)
    {
        int w = g.weighted({ 5, 3, 2, 2, depth < 2 ? 1 : 0 });
        if (w == 0)
        {
            auto x = std::make_unique<Item>(); x->p.ev = &x->ev; x->p.nSusp = (int)g.biased(4, 2, 3); x->p.throws = g.chance(1, 4); x->p.ek = (int)g.biased(exk::n, 1, 2); x->p.value = 2 + 1000 * id++; x->obj = x->p.value; x->p.ref = &x->obj; x->ty = (int)g.u(4);
            int i = (int)P.it.size(); P.ops.push_back({ Spawn, i, (int)g.u(2) }); held.push_back(i);
            g.note("%sspawn %d (%d suspension(s), %s)", ind.c_str(), i, x->p.nSusp, x->p.throws ? "throws" : "returns");
            if (x->p.nSusp) f.push_back({ &x->ev, x->p.nSusp });
            P.it.push_back(std::move(x));
        }
        else if (w == 1 || w == 2) { if (held.empty()) continue; int k = (int)g.u(held.size()); P.ops.push_back({ w == 1 ? AwaitH : DropH, held[k], 0 }); g.note("%s%s %d", ind.c_str(), w == 1 ? "await" : "drop", held[k]); held.erase(held.begin() + k); }
        else if (w == 3) { P.ops.push_back({ Own_, 0, 0 }); ++P.nOwn; g.note("%sbody suspends", ind.c_str()); }
        else { auto N = std::make_unique<Prog>(); g.note("%snested group", ind.c_str()); genProg(g, *N, f, depth + 1, id, ind + "    "); P.ops.push_back({ Nest, (int)P.nested.size(), 0 }); P.nested.push_back(std::move(N)); }
    }
    P.throws = g.chance(1, 5); if (P.throws) g.note("%sbody throws at its end", ind.c_str());
    if (P.nOwn) f.push_back({ &P.bodyEv, P.nOwn });
}
static void verify(Prog& P)
{
    REQUIRE(P.bodyDone == 1, "a body ended %d times", P.bodyDone);
    for (auto& x : P.it) { REQUIRE(x->p.starts == 1 && x->p.ends == 1, "spawned work started %d times, ended %d times", x->p.starts, x->p.ends); if (x->got) { REQUIRE(x->got == 1, "delivered %d times", x->got); x->o.check(x->p, "spawned task"); } }
    for (auto& n : P.nested) verify(*n);
}
static Drv rootNative(Prog& P, int& done, bool lval)
{
    { vs::Quiet q; REQUIRE(P.at == -1, "started early"); }
    try { if (lval) { auto s = body(P); co_await s; } else co_await body(P); } catch (async_scope_exception&) {}
    checkDone(P, "the group");
    vs::Quiet q; ++done;
}
static task<void> rootTask(Prog& P, int& done)
{
    try { co_await body(P); } catch (async_scope_exception&) {}
    checkDone(P, "the group");
    vs::Quiet q; ++done;
}
static task<void> rootMacro(Prog& P, int& done)
{
    MC_BEGIN(task<void>, &P, &done);
    MC_AWAIT(body(P));
    checkDone(P, "the group");
    { vs::Quiet q; ++done; }
    MC_END();
}
static Drv drive(task<void> t) { try { co_await t; } catch (async_scope_exception&) {} }
static void start(Prog& P, int& done, int how)
{
    if (how == 0) rootNative(P, done, false); else if (how == 1) rootNative(P, done, true); else if (how == 2) drive(rootTask(P, done)); else drive(rootMacro(P, done));
}
static int count(Prog& P) { int n = (int)P.it.size(); for (auto& x : P.nested) n += count(*x); return n; }

// one thread: after every step the completion state must agree with the model
PBT_SECTION(group_model, 100000, 4000000)
{
    LiveCheck lc;
    {
        Prog P; std::vector<Fire> f; int id = 0, done = 0; genProg(g, P, f, 0, id, ""); int how = (int)g.u(4); int susp = (int)f.size();
        start(P, done, how);
        while (true)
        {
            REQUIRE(done == P.allDone(), "%s", done ? "completed early" : "not completed although the body and all spawned work finished");
            std::vector<Fire*> v; for (auto& x : f) if (x.n && x.ev->parked) v.push_back(&x);
            if (v.empty()) break;
            auto* x = v[g.u(v.size())]; --x->n; x->ev->fire();
        }
        REQUIRE(done == 1, "the group completed %d times", done);
        verify(P);
        if (susp > 1 && count(P) > 1) g.nontrivial();
    }
    lc.done();
}
PBT_SECTION(group_schedules, 100000, 4000000)
{
    LiveCheck lc;
    {
        Prog P; std::vector<Fire> f; int id = 0, done = 0; genProg(g, P, f, 0, id, ""); int how = (int)g.u(4); int nt = (int)f.size(); uint64_t sw = 0;
        if (nt > 5) { for (int i = 5; i < nt; ++i) f[i].n = f[i].n; }
        vs::run(g, [&] {
            std::vector<std::vs_thread> th;
            for (auto& x : f) th.emplace_back([&x] { for (int i = 0; i < x.n; ++i) x.ev->fire(); });
            start(P, done, how);
            for (auto& t : th) t.join();
            sw = vs::switches();
        });
        REQUIRE(done == 1, "the group completed %d times", done);
        verify(P);
        if (nt > 1 && sw > (uint64_t)nt * 3) g.nontrivial();
        if (P.nested.size()) g.label("nested group");
    }
    lc.done();
}
// an abandoned group starts nothing and releases everything
PBT_SECTION(group_unused, 3000, 50000)
{
    LiveCheck lc;
    { Prog P; std::vector<Fire> f; int id = 0; genProg(g, P, f, 0, id, ""); { auto s = body(P); if (g.b()) { auto s2 = std::move(s); } } REQUIRE(P.at == -1, "the body ran without being awaited"); if (count(P)) g.nontrivial(); }
    lc.done();
}
static when_all_scope failing(Plan& p, bool bodyThrows) { if (!bodyThrows) co_await scoped(zNatTask<int>(p)); else throw Boom(1); }
static Drv failRoot(Plan& p, bool bt, bool& threw) { try { co_await failing(p, bt); } catch (async_scope_exception&) { threw = true; } catch (Boom&) { threw = true; } }
// known finding: errors are collected but never rethrown
PBT_SECTION(known_group_errors, 20, 20)
{
    XEv ev; Plan p; p.ev = &ev; p.throws = true; bool t = false; failRoot(p, g.b(), t);
    g.nontrivial();
    REQUIRE(t, "awaiting the group did not report the error of its body or of dropped spawned work");
}
