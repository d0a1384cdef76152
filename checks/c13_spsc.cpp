#include "common.h"
#include "vsched_on.h"
#include "macoro/sequence_spsc.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;

template<class S> uint64_t pickBase(pbt::Gen& g)
{
    using U = std::make_unsigned_t<S>;
    uint64_t m = (U)~U(0);
    switch (g.u(5)) { case 0: return m; case 1: return m - g.u(40); case 2: return (m >> 1) - g.u(40); case 3: return g.u(40); default: return g.u(m); }
}
// Positions count from the initial sequence number: position p is the number base+p.
// consumed <= published <= claimed <= consumed + N
template<class S> struct World
{
    pbt::Gen* g; uint64_t base; size_t N;
    sequence_barrier<S>* cb; sequence_spsc<S>* sq;
    int64_t consumed = 0, claimed = 0, published = 0; int depth = 0;
    // at most one pending claim
    int cstate = 0; /*0 none 1 waiting 2 granted*/ int64_t ccount = 0, grantRoom = 0; bool cOne = false; int claims = 0, expectClaims = 0, waitedClaims = 0, blockedWaits = 0, ranges = 0;
    struct WR { int state = 0; int64_t target; int resumes = 0; }; std::vector<WR> w;
    S seq(int64_t p) { return (S)(base + (uint64_t)p); }
    int64_t pos(S s, int64_t near) { return near + (int64_t)(std::make_signed_t<S>)(S)(s - seq(near)); }
    int64_t room() { return consumed + (int64_t)N - claimed; }
    void beforeClaim(bool one, int64_t n)
    {
        cOne = one; ccount = n; cstate = room() > 0 ? 2 : 1; if (cstate == 2) { ++expectClaims; grantRoom = room(); } else ++waitedClaims;
        g->note("%*sproducer claims %s%lld (consumed %lld, claimed %lld)%s", depth, "", one ? "one " : "up to ", (long long)n, (long long)consumed, (long long)claimed, cstate == 1 ? " waits" : "");
    }
    void gotClaim(int64_t first, int64_t n)
    {
        g->note("%*sclaimed %lld slots from %lld", depth, "", (long long)n, (long long)first);
        REQUIRE(cstate == 2, "claim granted in state %d (consumed %lld, claimed %lld, buffer %zu)", cstate, (long long)consumed, (long long)claimed, N);
        cstate = 0; ++claims;
        REQUIRE(claims == expectClaims, "claim granted %d times, expected %d", claims, expectClaims);
        REQUIRE(first == claimed + 1, "claim starts at %lld, expected %lld", (long long)first, (long long)claimed + 1);
        REQUIRE(n >= 1, "claimed nothing");
        REQUIRE(n <= ccount, "claimed %lld slots, asked for at most %lld", (long long)n, (long long)ccount);
        REQUIRE(n <= room(), "claimed %lld slots, only %lld free", (long long)n, (long long)room());
        // room seen when the claim was granted is a lower bound (more may have been freed since)
        REQUIRE(n >= std::min(ccount, grantRoom), "claimed %lld slots although %lld were free and %lld asked for", (long long)n, (long long)grantRoom, (long long)ccount);
        claimed += n; if (n > 1) ++ranges;
    }
    void publish(int64_t upTo, int64_t asRangeFrom)
    {
        std::vector<int> rel; published = upTo;
        for (size_t i = 0; i < w.size(); ++i) if (w[i].state == 1 && w[i].target <= published) { w[i].state = 2; rel.push_back((int)i); }
        g->note("%*spublish %lld, releases %zu", depth, "", (long long)upTo, rel.size());
        ++depth;
        if (asRangeFrom) sq->publish(sequence_range<S>(seq(asRangeFrom), seq(upTo + 1))); else sq->publish(seq(upTo));
        --depth;
        for (int i : rel) REQUIRE(w[i].state != 2, "waiter for %lld not resumed by publishing it", (long long)w[i].target);
    }
    void consume(int64_t upTo)
    {
        consumed = upTo; bool rel = false; int ex = expectClaims;
        if (cstate == 1 && room() > 0) { cstate = 2; ++expectClaims; ex = expectClaims; grantRoom = room(); rel = true; }
        g->note("%*sconsume up to %lld%s", depth, "", (long long)upTo, rel ? ", releases the producer" : "");
        ++depth; cb->publish(seq(upTo)); --depth;
        if (rel) REQUIRE(claims >= ex, "producer waiting for room was not resumed (consumed %lld, claimed %lld, buffer %zu)", (long long)consumed, (long long)claimed, N);
    }
    void beforeWait(int i, int64_t t) { w[i].target = t; w[i].state = t <= published ? 2 : 1; if (w[i].state == 1) ++blockedWaits; g->note("%*swaiter %d waits for %lld", depth, "", i, (long long)t); }
    void gotWait(int i, S r)
    {
        int64_t p = pos(r, published); ++w[i].resumes;
        g->note("%*swaiter %d told %lld", depth, "", i, (long long)p);
        REQUIRE(w[i].state == 2, "waiter for %lld resumed when %lld is published (state %d)", (long long)w[i].target, (long long)published, w[i].state);
        REQUIRE(p >= w[i].target && p <= published, "waiter for %lld told %lld, published %lld", (long long)w[i].target, (long long)p, (long long)published);
        w[i].state = 3;
    }
    void check()
    {
        REQUIRE(cstate != 2, "a claim with room was not granted");
        for (auto& x : w) REQUIRE(x.state != 2, "a released waiter was not resumed");
        S s = sq->last_published(); REQUIRE(s == seq(published), "last_published() is %lld, published %lld", (long long)pos(s, published), (long long)published);
    }
    void afterClaim(int64_t first) { if (depth && depth < 6 && g->b()) publish(claimed, g->b() ? first : 0); }
};
template<class S> Drv pNative(World<S>& W, bool one, int64_t n, int times)
{
    while (times--)
    {
        if (one) { W.beforeClaim(true, 1); S s = co_await W.sq->claim_one(); int64_t f = W.pos(s, W.claimed); W.gotClaim(f, 1); W.afterClaim(f); }
        else { W.beforeClaim(false, n); sequence_range<S> r = co_await W.sq->claim_up_to((size_t)n); int64_t f = W.pos(r.front(), W.claimed); W.gotClaim(f, (int64_t)(S)r.size()); W.afterClaim(f); }
    }
}
template<class S> task<void> pMacro(World<S>& W, bool one, int64_t n, int times)
{
    MC_BEGIN(task<void>, &W, one, n, times, s = S{}, r = sequence_range<S>{}, f = (int64_t)0);
    while (times--)
    {
        if (one) { W.beforeClaim(true, 1); MC_AWAIT_SET(s, W.sq->claim_one()); f = W.pos(s, W.claimed); W.gotClaim(f, 1); W.afterClaim(f); }
        else { W.beforeClaim(false, n); MC_AWAIT_SET(r, W.sq->claim_up_to((size_t)n)); f = W.pos(r.front(), W.claimed); W.gotClaim(f, (int64_t)(S)r.size()); W.afterClaim(f); }
    }
    MC_END();
}
template<class S> Drv wNative(World<S>& W, int i, int64_t t, bool two)
{
    W.beforeWait(i, t);
    S r = two ? co_await W.sq->wait_until_published(W.seq(t), W.seq(W.consumed)) : co_await W.sq->wait_until_published(W.seq(t));
    W.gotWait(i, r);
    if (W.depth && W.depth < 6 && W.g->b()) W.consume(W.consumed + W.g->in(0, W.published - W.consumed));
}
static Drv drive(task<void> t) { co_await t; }
template<class S> void model(pbt::Gen& g)
{
    World<S> W; W.g = &g; W.base = pickBase<S>(g);
    W.N = 1 + g.size(g.b() ? 4 : 50);
    sequence_barrier<S> cb((S)W.base); W.cb = &cb;
    sequence_spsc<S> sq(cb, W.N, (S)W.base); W.sq = &sq; W.w.reserve(40);
    g.note("%zu-bit numbers from %llu, buffer of %zu", sizeof(S) * 8, (unsigned long long)(S)W.base, W.N);
    int n = 2 + g.size(40);
    for (int i = 0; i < n; ++i)
    {
        switch (g.weighted({ 4, 3, 3, 2 }))
        {
        case 0: if (W.cstate == 0) { bool one = g.b(); int64_t c = one ? 1 : 1 + (int64_t)g.u(W.N + 4); if (!one && g.chance(1, 10)) c = 1 << 20; int k = 1 + g.size(3); if (g.b()) pNative(W, one, c, k); else drive(pMacro(W, one, c, k)); } break;
        case 1: if (W.published < W.claimed) { int64_t to = g.in(W.published + 1, W.claimed); W.publish(to, g.b() ? g.in(W.published + 1, to) : 0); } break;
        case 2: if (W.consumed < W.published) W.consume(g.in(W.consumed + 1, W.published)); break;
        case 3: if (W.w.size() < 36) { int id = (int)W.w.size(); W.w.push_back({}); wNative(W, id, W.consumed + g.in(0, std::min<int64_t>(W.N + 3, 30)), g.b()); } break;
        }
        W.check();
    }
    // everything still waiting completes once the other side goes on
    for (int k = 0; k < 400; ++k)
    {
        bool all = W.cstate == 0; for (auto& x : W.w) all &= x.state == 3;
        if (all) break;
        if (W.published < W.claimed) W.publish(W.claimed, 0);
        if (W.consumed < W.published) W.consume(W.published);
        bool waiting = false; for (auto& x : W.w) waiting |= x.state == 1;
        if (W.cstate == 0 && waiting) pNative(W, true, 1, 1);
        W.check();
    }
    REQUIRE(W.cstate == 0, "the producer never got its slot");
    for (auto& x : W.w) REQUIRE(x.state == 3, "the waiter for %lld never finished", (long long)x.target);
    if (W.waitedClaims && W.blockedWaits && W.claimed > (int64_t)W.N) g.nontrivial();
    if (W.ranges) g.label("range of several slots");
    if ((S)(W.base + W.claimed) < (S)W.base) g.label("wrapped around");
}
PBT_SECTION(spsc_model, 120000, 4000000)
{
    switch (g.u(4)) { case 0: model<uint8_t>(g); break; case 1: model<uint16_t>(g); break; case 2: model<uint32_t>(g); break; default: model<size_t>(g); }
}

// ------------------------------------------------------------------ schedules: a producing and a consuming thread over a ring buffer
template<class S> struct Ring
{
    pbt::Gen* g; uint64_t base; size_t N; sequence_barrier<S>* cb; sequence_spsc<S>* sq; int64_t total;
    std::vector<int> slot; std::vector<int> plan, cplan; int64_t pubStarted = 0, consStarted = 0; int waitsP = 0, waitsC = 0; bool pDone = false, cDone = false;
    S seq(int64_t p) { return (S)(base + (uint64_t)p); }
    int& at(int64_t p) { return slot[(size_t)p % N]; }
    void put(int64_t p)
    {
        { vs::Quiet q; REQUIRE(p - consStarted <= (int64_t)N, "slot %lld claimed while only %lld are consumed (buffer %zu)", (long long)p, (long long)consStarted, N); }
        if (at(p) != 0) { vs::Quiet q; g->fail("slot for %lld still holds an unread element", (long long)p); }
        at(p) = (int)p;
    }
    void take(int64_t p) { if (at(p) != (int)p) { vs::Quiet q; g->fail("element %lld: read %d", (long long)p, at(p)); } at(p) = 0; }
};
template<class S> Drv producer(Ring<S>& R)
{
    int64_t next = 1; size_t step = 0;
    while (next <= R.total)
    {
        int k; { vs::Quiet q; k = R.plan[step++ % R.plan.size()]; }
        int64_t want = std::min<int64_t>(std::abs(k), R.total - next + 1);
        if (k == 0)
        {
            S s = co_await R.sq->claim_one();
            { vs::Quiet q; REQUIRE(s == R.seq(next), "claimed a wrong slot (expected %lld)", (long long)next); }
            R.put(next);
            { vs::Quiet q; R.pubStarted = next; }
            R.sq->publish(s); ++next;
        }
        else
        {
            sequence_range<S> r = co_await R.sq->claim_up_to((size_t)want);
            int64_t n = (int64_t)(S)r.size();
            { vs::Quiet q; REQUIRE(r.front() == R.seq(next) && n >= 1 && n <= want, "claimed a wrong range (%lld slots, wanted %lld)", (long long)n, (long long)want); }
            for (int64_t i = 0; i < n; ++i) R.put(next + i);
            { vs::Quiet q; R.pubStarted = next + n - 1; }
            if (k > 0) R.sq->publish(r); else for (S s : r) R.sq->publish(s);
            next += n;
        }
    }
    vs::Quiet q; R.pDone = true;
}
template<class S> Drv consumer(Ring<S>& R)
{
    int64_t next = 1; size_t step = 0;
    while (next <= R.total)
    {
        S r = co_await R.sq->wait_until_published(R.seq(next));
        int64_t p = next + (int64_t)(std::make_signed_t<S>)(S)(r - R.seq(next)); int k;
        { vs::Quiet q; REQUIRE(p >= next && p <= R.pubStarted, "waiting for %lld told %lld, published %lld", (long long)next, (long long)p, (long long)R.pubStarted); k = R.cplan[step++ % R.cplan.size()]; }
        while (next <= p)
        {
            R.take(next); ++next;
            if (--k <= 0 || next > p) { { vs::Quiet q; R.consStarted = next - 1; } R.cb->publish(R.seq(next - 1)); k = 1; }
        }
    }
    vs::Quiet q; R.cDone = true;
}
template<class S> void sched(pbt::Gen& g)
{
    Ring<S> R; R.g = &g; R.base = pickBase<S>(g); R.N = 1 + g.size(5); R.total = 1 + g.size(14); R.slot.resize(R.N, 0);
    for (int i = 0, n = 1 + (int)g.u(3); i < n; ++i) R.plan.push_back(g.pick<int>({ 0, 1, 2, 3, -2, -4, 6 }));
    for (int i = 0, n = 1 + (int)g.u(3); i < n; ++i) R.cplan.push_back(1 + (int)g.u(4));
    sequence_barrier<S> cb((S)R.base); sequence_spsc<S> sq(cb, R.N, (S)R.base); R.cb = &cb; R.sq = &sq;
    g.note("%zu-bit numbers from %llu, buffer %zu, %lld elements", sizeof(S) * 8, (unsigned long long)(S)R.base, R.N, (long long)R.total);
    bool order = g.b(); uint64_t sw = 0;
    vs::run(g, [&] {
        std::vs_thread a([&] { if (order) producer(R); else consumer(R); });
        std::vs_thread b([&] { if (order) consumer(R); else producer(R); });
        a.join(); b.join(); sw = vs::switches();
    });
    REQUIRE(R.pDone, "the producer never finished (lost wake-up)");
    REQUIRE(R.cDone, "the consumer never finished (lost wake-up)");
    S lp = sq.last_published(), lc = cb.last_published();
    REQUIRE(lp == R.seq(R.total) && lc == R.seq(R.total), "wrong final positions");
    if (sw > 6 && R.total > (int64_t)R.N) g.nontrivial();
}
PBT_SECTION(spsc_schedules, 60000, 2000000)
{
    switch (g.u(3)) { case 0: sched<uint8_t>(g); break; case 1: sched<uint32_t>(g); break; default: sched<size_t>(g); }
}
