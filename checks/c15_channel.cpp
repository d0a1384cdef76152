#include "common.h"
#include "vsched_on.h"
#include <memory>
#include "macoro/optional.h"
#include "macoro/channel.h"
#include "macoro/task.h"
#include "macoro/wrap.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;

template<bool Multi> struct Kind;
template<> struct Kind<false> { template<class T> using channel = spsc::channel<T>; template<class T> using sender = spsc::channel_sender<T>; template<class T> using receiver = spsc::channel_receiver<T>; template<class T> static auto make(size_t n) { return spsc::make_channel<T>(n); } };
template<> struct Kind<true> { template<class T> using channel = mpsc::channel<T>; template<class T> using sender = mpsc::channel_sender<T>; template<class T> using receiver = mpsc::channel_receiver<T>; template<class T> static auto make(size_t n) { return mpsc::make_channel<T>(n); } };

// ------------------------------------------------------------------ histories against a queue model
template<bool Multi, class T> struct World
{
    using K = Kind<Multi>;
    using Push = typename K::template channel<T>::push_wrapper;
    using Pop = typename K::template channel<T>::pop_wrapper;
    pbt::Gen* g; size_t N;
    std::shared_ptr<typename K::template channel<T>> ch;
    struct Pos { int pub = 0; /*0 no 1 value 2 end*/ int value = 0; };
    std::vector<Pos> pos; size_t popped = 0, contig = 0;
    struct Send { int kind; /*0 value 1 slot 2 close*/ size_t idx = 0; int state = 0; int value = 0; Push w; bool held = false; };
    std::vector<std::unique_ptr<Send>> s;
    int rstate = 0; /*0 idle 1 waiting 2 released 3 done*/ int rkind = 0; int rdone = 0; std::optional<Pop> held; bool heldDone = false;
    int nextVal = 1, depth = 0, blockedS = 0, blockedR = 0, closedSeen = 0, ooo = 0, multiPop = 0;
    bool closed = false;

    void advance()
    {
        while (contig < pos.size() && pos[contig].pub) ++contig;
        if (rstate == 1 && contig > popped) { rstate = 2; g->note("%*sreceiver released", depth, ""); }
    }
    void mark(size_t i, int what, int v) { pos[i].pub = what; pos[i].value = v; advance(); }
    // a claim is made in the order of the calls; value and close operations publish as soon as they have their slot
    void beforeSend(Send& x)
    {
        x.idx = pos.size(); pos.push_back({});
        x.state = x.idx < popped + N ? 2 : 1; if (x.state == 1) ++blockedS;
        g->note("%*ssender: %s %d at %zu%s", depth, "", x.kind == 0 ? "push" : x.kind == 1 ? "claim" : "close", x.value, x.idx, x.state == 1 ? " waits" : "");
        if (x.state == 2 && x.kind != 1) mark(x.idx, x.kind == 2 ? 2 : 1, x.value);
    }
    void sent(Send& x)
    {
        REQUIRE(x.state == 2, "send at %zu granted in state %d (received %zu, capacity %zu)", x.idx, x.state, popped, N);
        x.state = 3; g->note("%*sgranted %zu", depth, "", x.idx);
    }
    void publishHeld(Send& x, int how)
    {
        x.held = false;
        if (x.idx > contig) ++ooo;
        mark(x.idx, x.value < 0 ? 2 : 1, x.value); g->note("%*spublish %zu = %d", depth, "", x.idx, x.value);
        ++depth;
        if (x.value >= 0) { if (g->chance(1, 4)) x.w = T(x.value + 500000); if (g->b()) x.w = T(x.value); else { T& r = x.w; r = T(x.value); } if (g->chance(1, 4)) { T& r = x.w; REQUIRE(Mk<T>::rd(r) == x.value, "a claimed slot assigned %d holds %d", x.value, Mk<T>::rd(r)); } }
        switch (how) { case 0: x.w.publish(); break; case 1: { Push p(std::move(x.w)); break; } case 2: x.w = Push{}; break; default: { Push p; p = std::move(x.w); p.publish(); p.publish(); } }
        --depth; check(true);
    }
    void beforeRecv(int k) { rkind = k; rstate = contig > popped ? 2 : 1; if (rstate == 1) ++blockedR; g->note("%*sreceiver: %s (next %zu, there %zu)", depth, "", k ? "pop" : "front", popped, contig); }
    // what the receiver must see now: the value, or -1 for the end
    int expected() { return pos[popped].pub == 2 ? -1 : pos[popped].value; }
    void got(int v)
    {
        REQUIRE(rstate == 2, "receiver resumed in state %d while %zu of %zu are received", rstate, popped, contig);
        rstate = 0; int e = expected(); g->note("%*sreceived %d", depth, "", v);
        REQUIRE(v == e, "received %d, expected %d (-1: end of channel)", v, e);
        if (v == -1) ++closedSeen;
    }
    void popHeld(Pop& p, int how)
    {
        ++popped; advance(); ++multiPop;
        for (auto& x : s) if (x->state == 1 && x->idx < popped + N) { x->state = 2; if (x->kind != 1) mark(x->idx, x->kind == 2 ? 2 : 1, x->value); }
        g->note("%*sreceiver lets go of %zu", depth, "", popped - 1);
        ++depth;
        switch (how) { case 0: p.publish(); break; case 1: { Pop q(std::move(p)); break; } case 2: p = Pop{}; break; default: { Pop q; q = std::move(p); q.publish(); q.publish(); } }
        --depth;
    }
    // inner: a push or close may be under way further out (it resumes the receiver before it returns)
    void check(bool inner = false)
    {
        for (auto& x : s) REQUIRE(x->state != 2 || (inner && x->kind != 1), "the send at %zu has room and was not granted", x->idx);
        REQUIRE(rstate != 2, "the receiver was not resumed although %zu is there", popped);
    }
};
template<bool M, class T> Drv send(World<M, T>& W, size_t i)
{
    auto& x = *W.s[i];
    W.beforeSend(x);
    if (x.kind == 0) co_await W.ch->push(T(x.value));
    else if (x.kind == 2) co_await W.ch->close();
    else { x.w = co_await W.ch->push(); x.held = true; }
    W.sent(x);
    if (x.kind == 1 && W.depth && W.g->b()) { bool other = false; for (auto& y : W.s) other |= y->held && y.get() != &x; if (M || !other) W.publishHeld(x, (int)W.g->u(4)); }
}
template<bool M, class T> task<void> sendMac(World<M, T>& W, size_t i)
{
    MC_BEGIN(task<void>, &W, i);
    W.beforeSend(*W.s[i]);
    if (W.s[i]->kind == 0) MC_AWAIT(W.ch->push(T(W.s[i]->value)));
    else if (W.s[i]->kind == 2) MC_AWAIT(W.ch->close());
    else { MC_AWAIT_SET(W.s[i]->w, W.ch->push()); W.s[i]->held = true; }
    W.sent(*W.s[i]);
    MC_END();
}
template<class P, class T> int readPop(P& p, pbt::Gen& g)
{
    switch (g.u(5))
    {
    case 0: { T v = *p; return Mk<T>::rd(v); }
    case 1: { T v = (T&&)p; return Mk<T>::rd(v); }
    case 2: { int r = Mk<T>::rd(*p); REQUIRE(Mk<T>::rd(*p.operator->()) == r, "two reads differ"); return r; }
    case 3: { T v(-5); v = std::move(p).operator*(); return Mk<T>::rd(v); }
    default: return Mk<T>::rd(*p.operator->());
    }
}
template<bool M, class T> Drv recv(World<M, T>& W, int times)
{
    while (times--)
    {
        bool pop = W.g->chance(2, 3); int v = -2;
        W.beforeRecv(pop);
        if (!pop)
        {
            try { T& r = co_await W.ch->front(); v = Mk<T>::rd(r); if (W.g->chance(1, 4)) r = T(v); }
            catch (channel_closed_exception&) { v = -1; }
            W.got(v);
            if (v == -1) break;
        }
        else
        {
            std::optional<typename World<M, T>::Pop> p;
            try { p.emplace(co_await W.ch->pop()); }
            catch (channel_closed_exception&) { v = -1; }
            if (v == -1) { W.got(-1); break; }
            int e = W.rstate == 2 && W.popped < W.pos.size() ? W.expected() : -3;
            if (e == -1) v = 0; // a pop that yields something at the end of the channel
            else if (W.g->chance(1, 8)) v = e; // dropped unread
            else v = readPop<decltype(*p), T>(*p, *W.g);
            W.got(v);
            if (!times && W.g->chance(1, 3)) { W.held.emplace(std::move(*p)); W.rstate = 4; break; }
            W.popHeld(*p, (int)W.g->u(4));
            W.check(true);
        }
    }
    if (W.rstate == 0) W.rstate = 3;
}
static Drv drive(task<void> t) { co_await t; }
template<bool M, class T> void model(pbt::Gen& g)
{
    LiveCheck lc;
    {
        World<M, T> W; W.g = &g; W.N = size_t(1) << g.u(4); W.rstate = 3;
        W.ch = std::make_shared<typename World<M, T>::K::template channel<T>>(W.N);
        g.note("%s channel of %zu", M ? "multi-producer" : "single-producer", W.N);
        auto pending = [&] { int n = 0; for (auto& x : W.s) n += x->state == 1; return n; };
        auto doSend = [&](int kind) {
            W.s.push_back(std::make_unique<typename World<M, T>::Send>()); auto& x = *W.s.back(); x.kind = kind; x.value = kind == 2 ? 0 : W.nextVal++;
            if (kind == 2) W.closed = true;
            size_t i = W.s.size() - 1; if (g.chance(2, 3)) send(W, i); else drive(sendMac(W, i)); W.check(); };
        auto heldList = [&] { std::vector<int> r; for (size_t i = 0; i < W.s.size(); ++i) if (W.s[i]->held) r.push_back((int)i); return r; };
        auto pubOne = [&](bool first) { auto h = heldList(); if (h.size()) { int i = h[M && !first ? g.u(h.size()) : 0]; W.publishHeld(*W.s[i], (int)g.u(4)); } };
        int n = 2 + g.size(50);
        for (int i = 0; i < n; ++i)
        {
            switch (g.weighted({ 4, 3, 3, 5, 2, 1 }))
            {
            case 0: if ((!W.closed || (M && W.pos.size() < W.popped + W.N)) && (M || (!pending() && heldList().empty()))) doSend(0); break;
            case 1: if ((!W.closed || (M && W.pos.size() < W.popped + W.N)) && (M || !pending()) && pending() < 6) doSend(1); break;
            case 2: pubOne(false); break;
            case 3: if (W.rstate == 3) recv(W, 1 + g.size(4)); break;
            case 4: if (W.rstate == 4) { W.rstate = 3; W.popHeld(*W.held, (int)g.u(4)); W.held.reset(); } break;
            case 5: if (!W.closed && g.chance(1, 2) && (M || (!pending() && heldList().empty()))) doSend(2); break;
            }
            W.check();
        }
        // bring everything to rest: publish what is held, receive everything
        for (int k = 0; k < 2000; ++k)
        {
            if (heldList().size()) pubOne(true);
            else if (W.rstate == 4) { W.rstate = 3; W.popHeld(*W.held, 0); W.held.reset(); }
            else if (W.rstate == 3 && W.popped < W.contig && W.expected() != -1) recv(W, 1);
            else if (W.rstate == 1 && !W.closed && !pending()) doSend(0);
            else break;
            W.check();
        }
        if (W.rstate == 3 && W.popped < W.contig) { int c = W.closedSeen; recv(W, 1); recv(W, 2); REQUIRE(W.closedSeen >= c + 2, "the end of the channel was not reported"); }
        REQUIRE(W.rstate != 1, "the receiver waits forever");
        REQUIRE(pending() == 0, "a sender waits forever");
        if (W.blockedS && W.blockedR && W.multiPop > (int)W.N) g.nontrivial();
        if (W.ooo) g.label("published out of order");
        if (W.closedSeen) g.label("end of channel seen");
        W.s.clear(); W.ch.reset();
    }
    lc.done("elements");
}
template<bool M> void modelAny(pbt::Gen& g) { if (g.b()) model<M, Val>(g); else model<M, MVal>(g); }
PBT_SECTION(spsc_channel_model, 150000, 4000000) { modelAny<false>(g); }
PBT_SECTION(mpsc_channel_model, 150000, 4000000) { modelAny<true>(g); }

// ------------------------------------------------------------------ capacities
PBT_SECTION(channel_capacity, 2000, 20000)
{
    size_t n = g.chance(1, 4) ? g.u(3) : g.u(100); bool ok = n && !(n & (n - 1)); bool multi = g.b(); int r = 0;
    g.note("%s capacity %zu", multi ? "mpsc" : "spsc", n);
    try { if (g.b()) { if (multi) mpsc::channel<int> c(n); else spsc::channel<int> c(n); } else { if (multi) mpsc::make_channel<MVal>(n); else spsc::make_channel<MVal>(n); } r = 1; }
    catch (std::runtime_error&) { r = 2; }
    REQUIRE(r == (ok ? 1 : 2), "capacity %zu: %s", n, r == 1 ? "accepted" : "refused");
    g.nontrivial();
}

// ------------------------------------------------------------------ schedules
template<bool Multi> struct Sch
{
    pbt::Gen* g; size_t N; int ns; std::vector<std::vector<int>> plan; int total = 0; bool close = false; int rstyle = 0;
    int doneSenders = 0; std::vector<int> sdone; bool rdone = false; std::vector<int> next; int received = 0; int sent = 0; int outstanding = 0; int fronts = 0;
    typename Kind<Multi>::template receiver<Val> rx; std::vector<typename Kind<Multi>::template sender<Val>> tx;
    std::shared_ptr<typename Kind<Multi>::template channel<Val>> ch;
    void item(int v)
    {
        vs::Quiet q; int t = v / 1000, k = v % 1000;
        REQUIRE(t >= 0 && t < ns, "received %d", v);
        REQUIRE(k == next[t], "received element %d of sender %d, expected its element %d", k, t, next[t]);
        ++next[t]; ++received;
    }
    bool last(int t) { vs::Quiet q; sdone[t] = 1; return ++doneSenders == ns; }
    void over(int t) { vs::Quiet q; sdone[t] = 2; }
    int op(int t, size_t i) { vs::Quiet q; return i < plan[t].size() ? plan[t][i] : -1; }
    bool wantClose() { vs::Quiet q; return close; }
    bool more() { vs::Quiet q; return received < total; }
    void end() { vs::Quiet q; rdone = true; }
};
template<bool M> Drv sNative(Sch<M>& S, int t)
{
    size_t i = 0;
    for (; ; ++i)
    {
        int o = S.op(t, i); if (o < 0) break;
        int v = t * 1000 + (int)i;
        if (o == 0) co_await S.ch->push(Val(v));
        else { auto w = co_await S.tx[t].push(); if (o == 1) { w = Val(v); w.publish(); } else { Val& r = w; r = Val(v); } }
    }
    if (S.last(t) && S.wantClose()) co_await S.tx[t].close();
    S.over(t);
}
template<bool M> task<void> sMacro(Sch<M>& S, int t)
{
    MC_BEGIN(task<void>, &S, t, i = size_t(0), o = 0, w = typename Kind<M>::template channel<Val>::push_wrapper{});
    for (; ; ++i)
    {
        o = S.op(t, i); if (o < 0) break;
        if (o == 0) MC_AWAIT(S.ch->push(Val(t * 1000 + (int)i)));
        else { MC_AWAIT_SET(w, S.tx[t].push()); w = Val(t * 1000 + (int)i); w.publish(); }
    }
    if (S.last(t) && S.wantClose()) MC_AWAIT(S.tx[t].close());
    S.over(t);
    MC_END();
}
template<bool M> Drv rNative(Sch<M>& S)
{
    bool closed = false;
    while (S.more())
    {
        bool f; { vs::Quiet q; f = S.rstyle & 1 ? (S.received % 2) : false; }
        int fv = -1; try { if (f) { Val& x = co_await S.rx.front(); fv = x.get(); } } catch (channel_closed_exception&) { closed = true; }
        if (closed) { vs::Quiet q; S.g->fail("the channel reported its end after %d of %d elements", S.received, S.total); }
        auto p = co_await S.rx.pop(); Val v = *p; if (fv >= 0) { vs::Quiet q; REQUIRE(fv == v.get(), "front gave %d and pop %d", fv, v.get()); }
        p.publish();
        S.item(v.get());
    }
    if (S.wantClose())
    {
        int n = 0; bool odd; { vs::Quiet q; odd = S.rstyle & 2; }
        try { if (odd) (void)co_await S.rx.front(); else (void)co_await S.rx.pop(); } catch (channel_closed_exception&) { ++n; }
        try { if (!odd) (void)co_await S.rx.front(); else (void)co_await S.rx.pop(); } catch (channel_closed_exception&) { ++n; }
        vs::Quiet q; REQUIRE(n == 2, "the end of the channel was reported %d times out of 2", n);
    }
    S.end();
}
template<bool M> task<void> rMacro(Sch<M>& S)
{
    MC_BEGIN(task<void>, &S, p = typename Kind<M>::template channel<Val>::pop_wrapper{}, r = result<typename Kind<M>::template channel<Val>::pop_wrapper>{});
    while (S.more())
    {
        MC_AWAIT_SET(p, S.rx.pop());
        { Val v = *p; p.publish(); S.item(v.get()); }
    }
    if (S.wantClose())
    {
        MC_AWAIT_TRY(r, S.rx.pop());
        { vs::Quiet q; REQUIRE(r.has_error(), "pop at the end of the channel succeeded"); }
    }
    S.end();
    MC_END();
}
template<bool M> void sched(pbt::Gen& g)
{
    LiveCheck lc; uint64_t sw = 0;
    {
        Sch<M> S; S.g = &g; S.N = size_t(1) << g.u(4); S.ns = M ? 1 + (int)g.u(3) : 1; S.close = g.b(); S.rstyle = (int)g.u(8); std::string d; std::vector<int> mac;
        for (int t = 0; t < S.ns; ++t) { S.plan.push_back({}); int n = 1 + g.size(6); for (int i = 0; i < n; ++i) S.plan[t].push_back((int)g.u(3)); S.total += n; mac.push_back((int)g.u(2)); d += std::to_string(n) + (mac[t] ? "m " : " "); }
        S.next.resize(S.ns); S.sdone.resize(S.ns); bool rmac = g.chance(1, 3);
        g.note("channel of %zu, senders: %s%s%s", S.N, d.c_str(), S.close ? " closed" : "", rmac ? " macro receiver" : "");
        S.ch = std::make_shared<typename Kind<M>::template channel<Val>>(S.N);
        S.rx = typename Kind<M>::template receiver<Val>(S.ch);
        S.tx.reserve(4); if constexpr (M) { typename Kind<M>::template sender<Val> first(S.ch); for (int t = 0; t < S.ns; ++t) S.tx.push_back(first); } else S.tx.emplace_back(S.ch);
        int rpos = (int)g.u(S.ns + 1);
        vs::run(g, [&] {
            std::vector<std::vs_thread> th;
            for (int t = 0; t <= S.ns; ++t) th.emplace_back([&, t] {
                if (t == rpos) { if (rmac) drive(rMacro(S)); else rNative(S); }
                else { int k = t < rpos ? t : t - 1; if (mac[k]) drive(sMacro(S, k)); else sNative(S, k); } });
            for (auto& x : th) x.join();
            sw = vs::switches();
        });
        for (int t = 0; t < S.ns; ++t) REQUIRE(S.sdone[t] == 2, "sender %d never finished", t);
        REQUIRE(S.rdone, "the receiver never finished: %d of %d received", S.received, S.total);
        if (sw > (uint64_t)(S.ns + 1) * 2 && S.total > (int)S.N) g.nontrivial();
        if (S.total > (int)S.N) g.label("more elements than capacity");
    }
    lc.done("elements");
}
PBT_SECTION(spsc_channel_schedules, 60000, 2000000) { sched<false>(g); }
PBT_SECTION(mpsc_channel_schedules, 60000, 2000000) { sched<true>(g); }
