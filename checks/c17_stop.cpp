#include "common.h"
#include "vsched_on.h"
#include <optional>
#include "macoro/stop.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;

// ------------------------------------------------------------------ C17: sequential model
namespace seqmodel
{
enum { CReg, CRan, CNever, CDead };
struct Cb { std::unique_ptr<stop_callback> p; int st = -1; int state = CReg; int runs = 0; int action = 0; bool made = false, running = false; };
struct St { int src = 0; bool req = false; };
struct World
{
    pbt::Gen* g; std::vector<St> st; std::vector<std::unique_ptr<Cb>> cb; int depth = 0, nested = 0, selfd = 0, bigreq = 0, late = 0, cleaning = 0;
    static constexpr int NS = 3, NT = 4;
    std::optional<stop_source> S[NS]; int sid[NS] = { -1,-1,-1 }; int busy[NS] = { 0,0,0 };
    stop_token T[NT]; int tid[NT] = { -1,-1,-1,-1 };

    bool possible(int id) { return id >= 0 && (st[id].req || st[id].src > 0); }
    void unref(int id) { if (id >= 0) --st[id].src; }
    void ref(int id) { if (id >= 0) ++st[id].src; }
    void checkAll()
    {
        for (int i = 0; i < NS; ++i) if (S[i])
        {
            REQUIRE(S[i]->stop_possible() == (sid[i] >= 0), "source %d: stop_possible() = %d", i, S[i]->stop_possible());
            bool r = S[i]->stop_requested(); REQUIRE(r == (sid[i] >= 0 && st[sid[i]].req), "source %d: stop_requested() = %d", i, r);
            if (depth == 0) { stop_token t = S[i]->get_token(); REQUIRE(t.stop_requested() == r && t.stop_possible() == (sid[i] >= 0), "token got from source %d disagrees with it", i); }
        }
        for (int i = 0; i < NT; ++i)
        {
            bool r = T[i].stop_requested(), p = T[i].stop_possible(), mr = tid[i] >= 0 && st[tid[i]].req;
            REQUIRE(r == mr, "token %d: stop_requested() = %d", i, r);
            REQUIRE(p == possible(tid[i]), "token %d: stop_possible() = %d (sources alive %d, requested %d)", i, p, tid[i] >= 0 ? st[tid[i]].src : 0, mr);
#ifndef MACORO_HAS_STD_STOP_TOKEN
            bool threw = false; try { T[i].throw_if_stop_requested(); } catch (const operation_cancelled&) { threw = true; }
            REQUIRE(threw == mr, "token %d: throw_if_stop_requested() %s", i, threw ? "threw" : "did not throw");
#endif
        }
        if (depth == 0) for (size_t i = 0; i < cb.size(); ++i) REQUIRE(cb[i]->runs == (cb[i]->state == CRan || (cb[i]->state == CDead && cb[i]->runs)) , "callback %zu ran %d times (state %d)", i, cb[i]->runs, cb[i]->state);
    }
    void run(int i)
    {
        Cb& c = *cb[i];
        g->note("%*scallback %d runs", depth, "", i);
        REQUIRE(c.state != CDead, "callback %d runs after it was destroyed", i);
        REQUIRE(c.state == CReg, "callback %d runs (state %d, runs so far %d)", i, c.state, c.runs);
        REQUIRE(c.st >= 0 && st[c.st].req, "callback %d runs without a stop request", i);
        ++c.runs; REQUIRE(c.runs == 1, "callback %d runs %d times", i, c.runs);
        c.state = CRan; c.running = true; int a = c.action; ++depth;
        if (depth < 6 && !cleaning) switch (a)
        {
        case 1: if (c.made) { ++selfd; g->note("%*s(destroys itself)", depth, ""); auto p = std::move(c.p); p.reset(); } break;
        case 2: ++nested; destroyOne(); break;
        case 3: ++nested; reg(); break;
        case 4: ++nested; request(); break;
        case 5: srcOp(); break;
        case 6: tokOp(); break;
        case 7: ++nested; for (int k = 0; k < 6; ++k) destroyOne(); reg(); reg(); break;
        }
        checkAll();
        --depth; cb[i]->running = false;
    }
    void destroy(int i)
    {
        Cb& c = *cb[i]; if (!c.p) return;
        g->note("%*sdestroy callback %d (%s)", depth, "", i, c.state == CReg ? "waiting" : c.state == CRan ? "ran" : "never");
        if (c.state == CReg) c.state = CDead;
        auto p = std::move(c.p); p.reset();
    }
    void destroyOne()
    {
        // skips a callback that is being run: only it may destroy itself
        std::vector<int> a; for (size_t i = 0; i < cb.size(); ++i) if (cb[i]->p && !cb[i]->running) a.push_back((int)i);
        if (a.size()) { int k = (int)g->u(3); destroy(k == 0 ? a.back() : k == 1 ? a.front() : a[g->u(a.size())]); }
    }
    void reg(int t = -1)
    {
        if (cb.size() > 400) return;
        if (t < 0) { t = (int)g->u(NT); if (!possible(tid[t]) && g->chance(3, 4)) for (int k = 0; k < NT; ++k) if (possible(tid[k])) t = k; }
        bool mv = g->chance(1, 6);
        int i = (int)cb.size(); cb.push_back(std::make_unique<Cb>());
        Cb& c = *cb[i]; c.st = tid[t]; c.action = (int)g->biased(8, 1, 4);
        bool now = c.st >= 0 && st[c.st].req;
        if (!possible(c.st)) c.state = CNever;
        if (now) ++late;
        g->note("%*sregister callback %d on token %d (state %d%s) action %d", depth, "", i, t, c.st, now ? ", requested" : c.state == CNever ? ", impossible" : "", c.action);
        auto f = [this, i] { auto* w = this; int k = i; w->run(k); };
        std::unique_ptr<stop_callback> p;
        if (mv) { tid[t] = -1; p = std::make_unique<stop_callback>(std::move(T[t]), f); }
        else p = std::make_unique<stop_callback>(T[t], f);
        if (now) REQUIRE(c.runs == 1, "callback %d registered after the request ran %d times before its constructor returned", i, c.runs);
        else if (c.state == CNever || c.state == CReg) REQUIRE(c.runs == 0, "callback %d ran when registered without a request", i);
        c.p = std::move(p); c.made = true;
    }
    void burst() { int n = 5 + (int)g->u(60); int t = (int)g->u(NT); for (int k = 0; k < n; ++k) { reg(tid[t] >= 0 ? t : -1); if (g->chance(1, 5)) destroyOne(); } }
    void request()
    {
        int i = (int)g->u(NS); if (!S[i] || sid[i] < 0) for (int k = 0; k < NS; ++k) if (S[k] && sid[k] >= 0 && !st[sid[k]].req) i = k;
        if (!S[i]) return;
        int id = sid[i]; g->note("%*srequest stop on source %d (state %d%s)", depth, "", i, id, id >= 0 && st[id].req ? ", again" : "");
        std::vector<int> due; bool first = id >= 0 && !st[id].req;
        if (first) { st[id].req = true; for (size_t k = 0; k < cb.size(); ++k) if (cb[k]->st == id && cb[k]->state == CReg) due.push_back((int)k); }
        if (due.size() > 16) ++bigreq;
        ++busy[i]; ++depth; S[i]->request_stop(); --depth; --busy[i];
        for (int k : due) REQUIRE(cb[k]->state != CReg, "callback %d did not run in the stop request", k);
    }
    void srcOp()
    {
        int i = (int)g->u(NS), j = (int)g->u(NS); if (busy[i]) return;
        switch (g->weighted({ 3, 2, 3, 3, 2, 2, 2 }))
        {
        case 0: g->note("%*ssource %d = new", depth, "", i); unref(sid[i]); sid[i] = (int)st.size(); st.push_back({ 1, false }); S[i].emplace(); break;
        case 1: g->note("%*ssource %d destroyed", depth, "", i); if (S[i]) { unref(sid[i]); sid[i] = -1; S[i].reset(); } break;
        case 2: if (S[j]) { g->note("%*ssource %d = copy of %d", depth, "", i, j); int n = sid[j]; ref(n); unref(sid[i]); sid[i] = n; if (S[i]) *S[i] = *S[j]; else S[i].emplace(*S[j]); } break;
        case 3: if (S[j] && !busy[j]) { g->note("%*ssource %d = move of %d", depth, "", i, j);
            if (i == j) { *S[i] = std::move(*S[j]); /* self-move: keeps or releases nothing */ break; }
            unref(sid[i]); sid[i] = sid[j]; sid[j] = -1; if (S[i]) *S[i] = std::move(*S[j]); else S[i].emplace(std::move(*S[j])); } break;
        case 4: if (S[j] && i != j) { g->note("%*ssource %d = constructed copy of %d", depth, "", i, j); int n = sid[j]; unref(sid[i]); sid[i] = -1; S[i].reset(); ref(n); sid[i] = n; S[i].emplace(*S[j]); } break;
        case 5: if (S[i] && S[j] && !busy[j] && i != j) { g->note("%*sswap sources %d %d", depth, "", i, j); std::swap(*S[i], *S[j]); std::swap(sid[i], sid[j]); } break;
        case 6: if (S[j] && !busy[j] && i != j) { g->note("%*ssource %d = constructed move of %d", depth, "", i, j); unref(sid[i]); sid[i] = -1; S[i].reset(); sid[i] = sid[j]; sid[j] = -1; S[i].emplace(std::move(*S[j])); } break;
        }
    }
    void tokOp()
    {
        int i = (int)g->u(NT), j = (int)g->u(NT), k = (int)g->u(NS);
        switch (g->weighted({ 5, 2, 2, 2, 1, 1 }))
        {
        case 0: if (S[k]) { g->note("%*stoken %d from source %d", depth, "", i, k); tid[i] = sid[k]; T[i] = S[k]->get_token(); } break;
        case 1: g->note("%*stoken %d = copy of %d", depth, "", i, j); tid[i] = tid[j]; T[i] = *&T[j]; break;
        case 2: g->note("%*stoken %d = move of %d", depth, "", i, j); if (i != j) { tid[i] = tid[j]; tid[j] = -1; } T[i] = std::move(T[j]); break;
        case 3: g->note("%*sswap tokens %d %d", depth, "", i, j); { using std::swap; swap(T[i], T[j]); std::swap(tid[i], tid[j]); } break;
        case 4: g->note("%*stoken %d empty", depth, "", i); tid[i] = -1; T[i] = stop_token(); break;
        case 5: { g->note("%*stoken %d through a constructed copy and move", depth, "", i); stop_token a(T[j]); stop_token b(std::move(a)); REQUIRE(!a.stop_possible() && !a.stop_requested(), "a moved-from token still has a state"); int n = tid[j]; T[i] = b; tid[i] = n; } break;
        }
    }
};
}
PBT_SECTION(stop_model, 120000, 2500000)
{
    using namespace seqmodel;
    World W; W.g = &g; vs::cpus = (unsigned)g.biased(40, 1, 3);
    W.S[0].emplace(); W.sid[0] = 0; W.st.push_back({ 1, false }); W.T[0] = W.S[0]->get_token(); W.tid[0] = 0;
    if (g.chance(2, 3)) for (int i = 1; i < 3; ++i) { W.S[i].emplace(); W.sid[i] = (int)W.st.size(); W.st.push_back({ 1, false }); W.T[i] = W.S[i]->get_token(); W.tid[i] = W.sid[i]; }
    int n = 2 + (int)g.u(30);
    for (int i = 0; i < n; ++i)
    {
        switch (g.weighted({ 8, 4, 2, 3, 3, 1 }))
        {
        case 0: W.reg(); break;
        case 1: W.destroyOne(); break;
        case 2: W.request(); break;
        case 3: W.srcOp(); break;
        case 4: W.tokOp(); break;
        case 5: W.burst(); if (g.chance(1, 2)) W.request(); break;
        }
        W.checkAll();
    }
    int reg = 0, ran = 0; for (auto& c : W.cb) { reg += c->state == seqmodel::CReg; ran += c->runs; }
    if (ran >= 2 && W.st.size() > 1) g.nontrivial();
    if (W.nested) g.label("acts inside a callback");
    if (W.selfd) g.label("callback destroys itself");
    if (W.bigreq) g.label("request with more than 16 callbacks");
    if (W.late) g.label("registered after the request");
    // tear down in a generated order; nothing may run any more
    W.cleaning = 1;
    if (g.b()) { for (auto& s : W.S) s.reset(); }
    if (g.b()) { for (auto& t : W.T) t = stop_token(); }
    for (size_t i = 0; i < W.cb.size(); ++i) W.destroy((int)(g.b() ? i : W.cb.size() - 1 - i));
    for (size_t i = 0; i < W.cb.size(); ++i) W.destroy((int)i);
}

// ------------------------------------------------------------------ C18: schedules
namespace sched
{
struct Cb
{
    std::optional<stop_callback> p; int owner = -1; bool self = false; int nest = 0;
    uint64_t regB = 0, regE = 0, delB = 0, delE = 0, runB = 0, runE = 0; int runs = 0; bool running = false; bool selfDel = false;
    int inCtor = -1;        // thread constructing it
    int data = 0;           // written by the callback without synchronisation
};
struct Rq { uint64_t b = 0, e = 0; int th; };
struct World
{
    pbt::Gen* g; std::vector<std::unique_ptr<Cb>> cb; std::vector<Rq> rq; uint64_t clk = 1; stop_source* srcOf[8] = {}; Mark m; bool one = false; /* one requesting thread: whoever learns of the request sees what that thread wrote before */ int depthReq[8] = {}; int contended = 0;
    uint64_t tick() { return clk++; }
    uint64_t firstReq() { uint64_t m = 0; for (auto& r : rq) if (!m || r.b < m) m = r.b; return m; }
    bool allDone() { for (auto& r : rq) if (!r.e) return false; return rq.size() > 0; }
};
static thread_local int tlsId = 0;
static void run(World& W, Cb* c);
static void reg(World& W, Cb* c, stop_token t)
{
    bool must; { vs::Quiet q; c->regB = W.tick(); c->inCtor = tlsId; must = false; for (auto& r : W.rq) must |= r.e != 0; }
    if (c->owner & 1) c->p.emplace(std::move(t), [&W, c] { auto* w = &W; auto* k = c; run(*w, k); });
    else c->p.emplace(t, [&W, c] { auto* w = &W; auto* k = c; run(*w, k); });
    vs::Quiet q; c->regE = W.tick(); c->inCtor = -1;
    if (must) REQUIRE(c->runs == 1, "a callback registered after a stop request had returned did not run before its constructor returned");
}
static void del(World& W, Cb* c)
{
    { vs::Quiet q; if (c->delB) return; c->delB = W.tick(); if (c->running) ++W.contended; }
    c->p.reset();
    { vs::Quiet q; c->delE = W.tick(); REQUIRE(!c->running, "a callback is still running after its destruction returned"); }
    c->data += 1;
}
static void request(World& W, stop_source* src)
{
    if (W.one) W.m.set();
    size_t k; { vs::Quiet q; k = W.rq.size(); W.rq.push_back({ W.tick(), 0, tlsId }); ++W.depthReq[tlsId]; }
    src->request_stop();
    REQUIRE(src->stop_requested(), "stop is not requested after requesting it");
    vs::Quiet q; --W.depthReq[tlsId]; W.rq[k].e = W.tick();
    if (W.allDone()) { uint64_t f = W.firstReq(); for (size_t i = 0; i < W.cb.size(); ++i) { auto& c = *W.cb[i]; if (c.regE && c.regE < f && !c.delB) REQUIRE(c.runs == 1 && !c.running, "callback %zu registered before the request: runs %d, running %d when it returned", i, c.runs, c.running); } }
}
static void run(World& W, Cb* c)
{
    {
        vs::Quiet q;
        REQUIRE(!c->delE, "a callback runs after its destruction returned");
        REQUIRE(W.rq.size(), "a callback runs without a stop request");
        REQUIRE(W.depthReq[tlsId] > 0 || c->inCtor == tlsId, "a callback runs on a thread that neither requests stop nor registers it");
        c->runB = W.tick(); c->running = true; ++c->runs; REQUIRE(c->runs == 1, "a callback runs %d times", c->runs);
    }
    c->data += 1; if (W.one) W.m.see("callback");
    vs::point("cb"); vs::point("cb");
    if (c->nest == 1) { stop_token t = W.srcOf[tlsId]->get_token(); REQUIRE(t.stop_requested(), "no stop request seen inside a callback"); int n = 0; stop_callback k(t, [&n] { ++n; }); REQUIRE(n == 1, "a callback registered inside a callback ran %d times", n); }
    if (c->nest == 2) { size_t k; { vs::Quiet q; k = W.rq.size(); W.rq.push_back({ W.tick(), 0, tlsId }); } W.srcOf[tlsId]->request_stop(); vs::Quiet q; W.rq[k].e = W.tick(); }
    { vs::Quiet q; REQUIRE(!c->delE, "a callback is running after its destruction returned"); c->running = false; c->runE = W.tick(); }
    if (c->self && c->regE && c->inCtor < 0) { c->delB = W.tick(); c->selfDel = true; c->p.reset(); c->delE = W.tick(); }
}
}
PBT_SECTION(stop_schedules, 60000, 1500000)
{
    using namespace sched;
    World W; W.g = &g;
    int nt = 2 + (int)g.u(3);
    static const unsigned cpus[] = { 4, 1, 0, 2, 3, 64 }; vs::cpus = cpus[g.biased(6, 1, 2)];
    int pre = (int)g.u(5); if (g.chance(1, vs::cpus < 2 ? 4 : 12)) { pre = 13 + (int)g.u(5); if (g.chance(1, 16)) pre += 32; }
    // op lists
    struct Op { int k; Cb* c; };
    std::vector<std::vector<Op>> ops(nt);
    std::vector<Cb*> preCbs;
    for (int i = 0; i < pre; ++i) { W.cb.push_back(std::make_unique<Cb>()); auto* c = W.cb.back().get(); c->owner = (int)g.u(nt + 1); c->self = g.chance(1, 4); c->nest = (int)g.biased(3, 1, 4); preCbs.push_back(c); }
    int nreq = 0;
    for (int t = 0; t < nt; ++t)
    {
        int n = 1 + (int)g.u(4); std::vector<Cb*> mine; for (auto* c : preCbs) if (c->owner == t && !c->self) mine.push_back(c);
        for (int i = 0; i < n; ++i) switch (g.weighted({ 4, 3, 6, 1, 1, 1 }))
        {
        case 0: { W.cb.push_back(std::make_unique<Cb>()); auto* c = W.cb.back().get(); c->owner = t; c->nest = (int)g.biased(3, 1, 6); ops[t].push_back({ 0, c }); mine.push_back(c); g.note("thread %d: register %zu", t, W.cb.size() - 1); } break;
        case 1: ops[t].push_back({ 1, nullptr }); ++nreq; g.note("thread %d: request", t); break;
        case 2: if (mine.size()) { size_t k = g.u(mine.size()); Cb* c = mine[k]; mine.erase(mine.begin() + k); ops[t].push_back({ 2, c }); g.note("thread %d: destroy callback", t); } break;
        case 3: ops[t].push_back({ 3, nullptr }); break;
        case 4: ops[t].push_back({ 4, nullptr }); break;
        case 5: ops[t].push_back({ 5, nullptr }); break;
        }
    }
    if (!nreq) { ops[0].push_back({ 1, nullptr }); g.note("thread 0: request"); nreq = 1; }
    W.one = nreq == 1;
    uint64_t sw = 0; bool early = g.b(), dropAll = g.chance(1, 2);
    std::vector<std::vector<Cb*>> ownedBy(nt); for (auto& c : W.cb) if (!c->self && c->owner < nt) ownedBy[c->owner].push_back(c.get());
    vs::run(g, [&] {
        tlsId = 7;
        auto src = std::make_unique<stop_source>(); W.srcOf[7] = src.get();
        for (auto* c : preCbs) reg(W, c, src->get_token());
        {
            std::vector<std::vs_thread> th;
            // every thread has its own copy of the source and of a token
            for (int t = 0; t < nt; ++t) th.emplace_back([&W, &ops, &ownedBy, dropAll, t, s = *src, tok = src->get_token()]() mutable {
                tlsId = t; W.srcOf[t] = &s; std::optional<stop_source> mys(s); bool seen = false;
                for (auto& o : ops[t]) switch (o.k)
                {
                case 0: reg(W, o.c, tok); break;
                case 1: request(W, &s); seen = true; break;
                case 2: del(W, o.c); break;
                case 3: { bool done, any; { vs::Quiet q; any = W.rq.size() > 0; done = false; for (auto& r : W.rq) done |= r.e != 0; } bool r = tok.stop_requested(); if (r && W.one) W.m.see("stop_requested"); if (done || seen) REQUIRE(r, "a token does not see a stop request that returned"); { vs::Quiet q; any = W.rq.size() > 0; } if (r) { REQUIRE(any, "a token reports a stop nobody requested"); seen = true; } REQUIRE(tok.stop_possible(), "stop impossible though sources are alive"); } break;
                case 4: { stop_source c2(s); stop_token t2 = c2.get_token(); stop_token t3 = t2; t2 = std::move(t3); REQUIRE(t2.stop_possible(), "stop impossible though a source is alive"); } break;
                case 5: { stop_source c2; stop_token t2 = c2.get_token(); int n = 0; { stop_callback k(t2, [&] { ++n; }); c2.request_stop(); } REQUIRE(n == 1, "private callback ran %d times", n); } break;
                }
                mys.reset();
                if (dropAll) for (auto* c : ownedBy[t]) if (c->regB) del(W, c);
                { stop_source x(std::move(s)); REQUIRE(!s.stop_possible(), "a moved-from source still has a state"); } tok = stop_token();
            });
            if (early) { src.reset(); vs::point("src"); }
            for (auto& x : th) x.join();
        }
        sw = vs::switches();
        {
            vs::Quiet q; uint64_t f = W.firstReq(), l = 0; for (auto& r : W.rq) l = std::max(l, r.e);
            for (size_t i = 0; i < W.cb.size(); ++i)
            {
                auto& c = *W.cb[i]; if (!c.regB) continue;
                REQUIRE(!c.running, "callback %zu still running", i);
                if (!c.delB) REQUIRE(c.runs == 1, "callback %zu never destroyed, stop requested: ran %d times", i, c.runs);
                else if (c.delB > l) REQUIRE(c.runs == 1, "callback %zu destroyed after the requests: ran %d times", i, c.runs);
                else if (c.delE < f) REQUIRE(c.runs == 0, "callback %zu destroyed before any request ran", i);
                if (c.selfDel) REQUIRE(c.runs == 1, "callback %zu", i);
            }
        }
        // release in a generated order
        bool sf = g.b(); if (sf) { src.reset(); }
        for (auto& c : W.cb) c->p.reset();
        if (!sf) src.reset();
    });
    bool racing = W.contended > 0; int inwin = 0;
    for (auto& c : W.cb) if (c->runs && c->regB) ++inwin;
    if (sw > (uint64_t)nt && inwin) g.nontrivial();
    if (racing) g.label("destruction waited for a running callback");
    if (nreq > 1) g.label("several requesting threads");
    if (pre > 12) g.label("chunk boundary");
}
