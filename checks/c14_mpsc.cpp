#include "common.h"
#include "vsched_on.h"
#include <memory>
#include "macoro/sequence_mpsc.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;

template<class S> uint64_t pickBase(pbt::Gen& g)
{
    using U = std::make_unsigned_t<S>;
    uint64_t m = (U)~U(0);
    switch (g.u(5)) { case 0: return m; case 1: return m - g.u(40); case 2: return (m >> 1) - g.u(40); case 3: return g.u(40); default: return g.u(m); }
}
// Positions count from the initial number. consumed <= contig <= claimed; claims wait until back <= consumed + N.
template<class S> struct World
{
    pbt::Gen* g; uint64_t base; size_t N; sequence_barrier<S>* cb; sequence_mpsc<S>* sq;
    int64_t consumed = 0, claimed = 0; std::set<int64_t> own; /* granted, unpublished */ std::set<int64_t> pub; /* published beyond contig */ int64_t contig = 0; int depth = 0;
    struct Cl { int state = 0; int64_t first = 0, n = 0; }; std::vector<Cl> c;
    struct Wt { int state = 0; int64_t target = 0, known = 0; }; std::vector<Wt> w;
    int multi = 0, kept = 0, ooo = 0, blocked = 0, ranges = 0;
    S seq(int64_t p) { return (S)(base + (uint64_t)p); }
    int64_t pos(S s, int64_t near) { return near + (int64_t)(std::make_signed_t<S>)(S)(s - seq(near)); }
    void beforeClaim(int i, int64_t n)
    {
        c[i].n = std::min<int64_t>(n, N); c[i].first = claimed + 1; claimed += c[i].n; c[i].state = c[i].first + c[i].n - 1 <= consumed + (int64_t)N ? 2 : 1; if (c[i].state == 1) ++blocked;
        g->note("%*sclaim %d of %lld: %lld.. (consumed %lld)%s", depth, "", i, (long long)n, (long long)c[i].first, (long long)consumed, c[i].state == 1 ? " waits" : "");
    }
    void gotClaim(int i, int64_t first, int64_t n)
    {
        g->note("%*sclaim %d granted %lld slots from %lld", depth, "", i, (long long)n, (long long)first);
        REQUIRE(c[i].state == 2, "claim %d granted in state %d (consumed %lld, back %lld, buffer %zu)", i, c[i].state, (long long)consumed, (long long)(c[i].first + c[i].n - 1), N);
        REQUIRE(first == c[i].first && n == c[i].n, "claim %d received %lld slots from %lld, expected %lld from %lld", i, (long long)n, (long long)first, (long long)c[i].n, (long long)c[i].first);
        c[i].state = 3; for (int64_t k = 0; k < n; ++k) own.insert(first + k); if (n > 1) ++ranges;
    }
    void publish(int64_t from, int64_t to, bool range)
    {
        for (int64_t p = from; p <= to; ++p) { own.erase(p); pub.insert(p); }
        int64_t was = contig;
        while (pub.count(contig + 1)) pub.erase(++contig);
        if (from > was + 1) ++ooo;
        std::vector<int> rel; int stay = 0;
        for (size_t i = 0; i < w.size(); ++i) if (w[i].state == 1) { if (w[i].target <= contig) { w[i].state = 2; rel.push_back((int)i); } else ++stay; }
        if (rel.size() > 1) ++multi;
        if (rel.size() && stay) ++kept;
        g->note("%*spublish %lld..%lld: contiguous up to %lld, releases %zu of %zu", depth, "", (long long)from, (long long)to, (long long)contig, rel.size(), rel.size() + stay);
        ++depth;
        if (range) sq->publish(sequence_range<S>(seq(from), seq(to + 1))); else for (int64_t p = to; p >= from; --p) sq->publish(seq(p));
        --depth;
        for (int i : rel) REQUIRE(w[i].state != 2, "waiter for %lld not resumed although everything up to %lld is published", (long long)w[i].target, (long long)contig);
    }
    bool mayPublishOne() { return !own.empty(); }
    void publishSome()
    {
        if (own.empty()) return;
        auto it = own.begin(); std::advance(it, g->u(own.size())); int64_t a = *it, b = a;
        if (g->b()) while (own.count(b + 1) && g->chance(3, 4)) ++b;
        if (g->chance(1, 20)) sq->publish(sequence_range<S>(seq(a), seq(a))); // empty range: no effect
        // more than one as single publications are made one by one below (each is an operation of its own)
        if (b > a && !g->b()) { for (int64_t p = b; p >= a; --p) if (own.count(p)) publish(p, p, false); } else publish(a, b, b > a || g->b());
    }
    int64_t consumable() { int64_t m = contig; for (auto& x : w) if (x.state == 1) m = std::min(m, x.known); return m; }
    void consume(int64_t to)
    {
        consumed = to; std::vector<int> rel;
        for (size_t i = 0; i < c.size(); ++i) if (c[i].state == 1 && c[i].first + c[i].n - 1 <= consumed + (int64_t)N) { c[i].state = 2; rel.push_back((int)i); }
        g->note("%*sconsume up to %lld, releases %zu claims", depth, "", (long long)to, rel.size());
        ++depth; cb->publish(seq(to)); --depth;
        for (int i : rel) REQUIRE(c[i].state != 2, "claim %d has room and was not resumed", i);
    }
    void beforeWait(int i, int64_t t, int64_t k)
    {
        w[i].target = t; w[i].known = k; w[i].state = t <= contig ? 2 : 1;
        g->note("%*swaiter %d waits for %lld, knows %lld", depth, "", i, (long long)t, (long long)k);
    }
    void gotWait(int i, S r)
    {
        int64_t p = pos(r, contig);
        g->note("%*swaiter %d told %lld", depth, "", i, (long long)p);
        REQUIRE(w[i].state == 2, "waiter for %lld resumed when only %lld is contiguously published (state %d)", (long long)w[i].target, (long long)contig, w[i].state);
        REQUIRE(p >= w[i].target, "waiter for %lld told %lld", (long long)w[i].target, (long long)p);
        REQUIRE(p <= contig, "waiter for %lld told %lld, contiguously published %lld", (long long)w[i].target, (long long)p, (long long)contig);
        w[i].state = 3;
    }
    void check()
    {
        for (auto& x : c) REQUIRE(x.state != 2, "a claim with room was not granted");
        for (auto& x : w) REQUIRE(x.state != 2, "a released waiter was not resumed");
        bool a = sq->any_available(), m = claimed + 1 <= consumed + (int64_t)N;
        REQUIRE(a == m, "any_available() is %d; next slot %lld, consumed %lld, buffer %zu", a, (long long)claimed + 1, (long long)consumed, N);
        int64_t k = g->in(consumed, contig); S s = sq->last_published_after(seq(k));
        REQUIRE(s == seq(contig), "last_published_after(%lld) is %lld, contiguously published %lld", (long long)k, (long long)pos(s, contig), (long long)contig);
        REQUIRE(sq->buffer_size() == N, "buffer_size() is %zu", sq->buffer_size());
    }
    bool roomForClaim(int64_t n) { return claimed + n - consumed <= 110; } // keeps differences representable in 8 bits
    void afterClaim() { if (depth && depth < 6 && g->b()) publishSome(); }
};
template<class S> Drv pNative(World<S>& W, int i, bool one, int64_t n)
{
    W.beforeClaim(i, one ? 1 : n);
    if (one) { S s = co_await W.sq->claim_one(); W.gotClaim(i, W.pos(s, W.c[i].first), 1); }
    else { sequence_range<S> r = co_await W.sq->claim_up_to((size_t)n); W.gotClaim(i, W.pos(r.front(), W.c[i].first), (int64_t)(S)r.size()); }
    W.afterClaim();
}
template<class S> task<void> pMacro(World<S>& W, int i, bool one, int64_t n)
{
    MC_BEGIN(task<void>, &W, i, one, n, s = S{}, r = sequence_range<S>{});
    W.beforeClaim(i, one ? 1 : n);
    if (one) { MC_AWAIT_SET(s, W.sq->claim_one()); W.gotClaim(i, W.pos(s, W.c[i].first), 1); }
    else { MC_AWAIT_SET(r, W.sq->claim_up_to((size_t)n)); W.gotClaim(i, W.pos(r.front(), W.c[i].first), (int64_t)(S)r.size()); }
    W.afterClaim();
    MC_END();
}
template<class S> Drv wNative(World<S>& W, int i, int64_t t, int64_t k)
{
    W.beforeWait(i, t, k);
    S r = co_await W.sq->wait_until_published(W.seq(t), W.seq(k));
    W.gotWait(i, r);
    if (W.depth && W.depth < 6 && W.g->b()) { int64_t m = W.consumable(); if (m > W.consumed) W.consume(W.g->in(W.consumed + 1, m)); }
}
template<class S> task<void> wMacro(World<S>& W, int i, int64_t t, int64_t k)
{
    MC_BEGIN(task<void>, &W, i, t, k, r = S{});
    W.beforeWait(i, t, k);
    MC_AWAIT_SET(r, W.sq->wait_until_published(W.seq(t), W.seq(k)));
    W.gotWait(i, r);
    MC_END();
}
static Drv drive(task<void> t) { co_await t; }
template<class S> void model(pbt::Gen& g)
{
    World<S> W; W.g = &g; W.base = pickBase<S>(g); W.N = size_t(1) << g.u(5);
    sequence_barrier<S> cb((S)W.base); W.cb = &cb; sequence_mpsc<S> sq(cb, W.N, (S)W.base); W.sq = &sq; W.w.reserve(64); W.c.reserve(512);
    g.note("%zu-bit numbers from %llu, buffer of %zu", sizeof(S) * 8, (unsigned long long)(S)W.base, W.N);
    W.check();
    int n = 2 + g.size(45);
    for (int i = 0; i < n; ++i)
    {
        switch (g.weighted({ 4, 4, 3, 3 }))
        {
        case 0: { bool one = g.b(); int64_t k = one ? 1 : 1 + (int64_t)g.u(W.N + 2); if (W.c.size() < 200 && W.roomForClaim(std::min<int64_t>(k, W.N))) { int id = (int)W.c.size(); W.c.push_back({}); if (g.chance(2, 3)) pNative(W, id, one, k); else drive(pMacro(W, id, one, k)); } } break;
        case 1: W.publishSome(); break;
        case 2: { int64_t m = W.consumable(); if (m > W.consumed) W.consume(g.in(W.consumed + 1, m)); } break;
        case 3: if (W.w.size() < 60) { int id = (int)W.w.size(); W.w.push_back({}); int64_t gr = 0; for (auto& x : W.c) { if (x.state != 3) break; gr = x.first + x.n - 1; }
            // a consumer that knows less than it could must wait for a slot already granted, or the buffer could not move on without it
            int64_t k = g.in(W.consumed, W.contig), t = g.chance(1, 3) ? k = W.contig, k + 1 : g.in(W.consumed, std::max(gr, k));
            if (g.chance(2, 3)) wNative(W, id, t, k); else drive(wMacro(W, id, t, k)); } break;
        }
        W.check();
    }
    for (int k = 0; k < 600; ++k)
    {
        bool all = true, waiting = false; for (auto& x : W.c) all &= x.state == 3; for (auto& x : W.w) waiting |= x.state == 1;
        if (all && !waiting && W.own.empty()) break;
        if (!W.own.empty()) W.publishSome();
        else if (W.consumable() > W.consumed) W.consume(W.consumable());
        else if (W.roomForClaim(1) && W.c.size() < 500) { int id = (int)W.c.size(); W.c.push_back({}); pNative(W, id, true, 1); }
        W.check();
    }
    for (auto& x : W.c) REQUIRE(x.state == 3, "the claim of %lld.. was never granted", (long long)x.first);
    for (auto& x : W.w) REQUIRE(x.state == 3, "the waiter for %lld never finished", (long long)x.target);
    if (W.ooo && W.blocked) g.nontrivial();
    if (W.multi) g.label("publication releases several waiters");
    if (W.kept) g.label("publication releases some waiters and keeps others");
    if ((S)(W.base + W.claimed) < (S)W.base) g.label("wrapped around");
}
PBT_SECTION(mpsc_model, 120000, 4000000)
{
    switch (g.u(4)) { case 0: model<uint8_t>(g); break; case 1: model<uint16_t>(g); break; case 2: model<uint32_t>(g); break; default: model<size_t>(g); }
}

// ------------------------------------------------------------------ schedules: 1-3 producing threads and a consuming thread over a ring buffer
template<class S> struct Ring
{
    pbt::Gen* g; uint64_t base; size_t N; sequence_barrier<S>* cb; sequence_mpsc<S>* sq; int64_t total = 0;
    std::vector<int> slot; std::vector<int> cplan; int64_t consStarted = 0; std::set<int64_t> claimed, pubs; int64_t contigStarted = 0; bool cDone = false;
    struct P { std::vector<int> plan; bool done = false; }; std::vector<P> p;
    S seq(int64_t x) { return (S)(base + (uint64_t)x); }
    int64_t pos(S s, int64_t near) { return near + (int64_t)(std::make_signed_t<S>)(S)(s - seq(near)); }
    int& at(int64_t x) { return slot[(size_t)x & (N - 1)]; }
    void granted(int64_t x)
    {
        { vs::Quiet q; REQUIRE(claimed.insert(x).second, "slot %lld handed out twice", (long long)x); REQUIRE(x >= 1 && x - consStarted <= (int64_t)N, "slot %lld granted while only %lld are consumed (buffer %zu)", (long long)x, (long long)consStarted, N); }
        if (at(x) != 0) { vs::Quiet q; g->fail("slot for %lld still holds an unread element", (long long)x); }
        at(x) = (int)x;
    }
    void starting(int64_t x) { vs::Quiet q; pubs.insert(x); while (pubs.count(contigStarted + 1)) ++contigStarted; }
    void take(int64_t x) { if (at(x) != (int)x) { vs::Quiet q; g->fail("element %lld: read %d", (long long)x, at(x)); } at(x) = 0; }
};
template<class S> Drv producer(Ring<S>& R, int t)
{
    size_t i = 0, n; { vs::Quiet q; n = R.p[t].plan.size(); }
    for (; i < n; ++i)
    {
        int k; int64_t near; { vs::Quiet q; k = R.p[t].plan[i]; near = R.consStarted; }
        if (k == 0) { S s = co_await R.sq->claim_one(); int64_t x; { vs::Quiet q; x = R.pos(s, R.consStarted); } R.granted(x); R.starting(x); R.sq->publish(s); }
        else
        {
            sequence_range<S> r = co_await R.sq->claim_up_to((size_t)std::abs(k));
            int64_t f, m = (int64_t)(S)r.size(); { vs::Quiet q; f = R.pos(r.front(), R.consStarted); REQUIRE(m == std::min<int64_t>(std::abs(k), R.N), "claimed %lld slots, wanted %d, buffer %zu", (long long)m, std::abs(k), R.N); }
            for (int64_t x = f; x < f + m; ++x) R.granted(x);
            if (k > 0) { for (int64_t x = f; x < f + m; ++x) R.starting(x); R.sq->publish(r); }
            else for (int64_t x = f + m - 1; x >= f; --x) { R.starting(x); R.sq->publish(R.seq(x)); }
        }
    }
    vs::Quiet q; R.p[t].done = true;
}
template<class S> Drv consumer(Ring<S>& R)
{
    int64_t next = 1, known = 0; size_t step = 0;
    while (next <= R.total)
    {
        S r = co_await R.sq->wait_until_published(R.seq(next), R.seq(known));
        int k; { vs::Quiet q; known = R.pos(r, next); REQUIRE(known >= next && known <= R.contigStarted, "waiting for %lld told %lld, contiguously published %lld", (long long)next, (long long)known, (long long)R.contigStarted); k = R.cplan[step++ % R.cplan.size()]; }
        // takes some of what is known to be there; the rest is not waited for again
        while (next <= known)
        {
            R.take(next); ++next;
            if (--k <= 0 || next > known) { { vs::Quiet q; R.consStarted = next - 1; } R.cb->publish(R.seq(next - 1)); k = 1; }
        }
    }
    vs::Quiet q; R.cDone = true;
}
template<class S> void sched(pbt::Gen& g)
{
    Ring<S> R; R.g = &g; R.base = pickBase<S>(g); R.N = size_t(1) << g.u(4); R.slot.resize(R.N, 0);
    int np = 1 + (int)g.u(3); R.p.resize(np); std::string d;
    for (auto& p : R.p) { int m = 1 + g.size(5); for (int i = 0; i < m; ++i) { int k = g.pick<int>({ 0, 1, 2, 3, -2, -3, 9 }); p.plan.push_back(k); R.total += k == 0 ? 1 : std::min<int64_t>(std::abs(k), R.N); d += std::to_string(k) + " "; } d += "| "; }
    for (int i = 0, n = 1 + (int)g.u(3); i < n; ++i) R.cplan.push_back(1 + (int)g.u(4));
    sequence_barrier<S> cb((S)R.base); sequence_mpsc<S> sq(cb, R.N, (S)R.base); R.cb = &cb; R.sq = &sq;
    g.note("%zu-bit numbers from %llu, buffer %zu, producers: %s", sizeof(S) * 8, (unsigned long long)(S)R.base, R.N, d.c_str());
    int cons = (int)g.u(np + 1); uint64_t sw = 0;
    vs::run(g, [&] {
        std::vector<std::vs_thread> th;
        for (int t = 0; t <= np; ++t) th.emplace_back([&, t] { if (t == cons) consumer(R); else producer(R, t < cons ? t : t - 1); });
        for (auto& x : th) x.join();
        sw = vs::switches();
    });
    for (auto& p : R.p) REQUIRE(p.done, "a producer never finished (lost wake-up)");
    REQUIRE(R.cDone, "the consumer never finished (lost wake-up)");
    REQUIRE((int64_t)R.claimed.size() == R.total, "gaps in the slots handed out");
    if (sw > (uint64_t)(np + 1) * 2 && np > 1 && R.total > (int64_t)R.N) g.nontrivial();
}
PBT_SECTION(mpsc_schedules, 60000, 2000000)
{
    switch (g.u(3)) { case 0: sched<uint8_t>(g); break; case 1: sched<uint32_t>(g); break; default: sched<size_t>(g); }
}

// ------------------------------------------------------------------ schedules: several waiting threads, several publishing threads, one window
template<class S> struct Wait { int64_t target = 0, known = 0, got = -1; int count = 0; };
template<class S> struct Room
{
    pbt::Gen* g; uint64_t base; sequence_mpsc<S>* sq; std::vector<Wait<S>> w; std::set<int64_t> pubs; int64_t contig = 0; std::vector<int> data;
    S seq(int64_t x) { return (S)(base + (uint64_t)x); }
    void got(int i, S r)
    {
        int64_t p = (int64_t)(std::make_signed_t<S>)(S)(r - (S)base);
        { vs::Quiet q; ++w[i].count; w[i].got = p; REQUIRE(p >= w[i].target, "waiter for %lld told %lld", (long long)w[i].target, (long long)p); REQUIRE(p <= contig, "waiter for %lld told %lld, contiguously published %lld", (long long)w[i].target, (long long)p, (long long)contig); }
        for (int64_t k = 1; k <= p; ++k) if (data[k] != k) { vs::Quiet q; g->fail("data of published %lld not visible", (long long)k); }
    }
};
template<class S> Drv waiter(Room<S>& R, int first, int n)
{
    for (int i = first; i < first + n; ++i)
    {
        int64_t t, k; { vs::Quiet q; t = R.w[i].target; k = R.w[i].known; }
        S r = co_await R.sq->wait_until_published(R.seq(t), R.seq(k));
        R.got(i, r);
    }
}
template<class S> Drv claimAll(sequence_mpsc<S>& q, int n) { for (int i = 0; i < n; ++i) co_await q.claim_one(); }
template<class S> void room(pbt::Gen& g)
{
    Room<S> R; R.g = &g; R.base = pickBase<S>(g); size_t N = size_t(1) << (1 + g.u(4));
    sequence_barrier<S> cb((S)R.base); sequence_mpsc<S> sq(cb, N, (S)R.base); R.sq = &sq; int total = 1 + (int)g.u(N);
    R.data.resize(total + 1, 0);
    claimAll(sq, total);
    int np = 1 + (int)g.u(3), nw = 1 + (int)g.u(3); std::vector<std::vector<int64_t>> prog(np); std::string d;
    // one number is published only after everything else has come to rest
    int64_t held = g.chance(2, 3) ? g.in(1, total) : total + 1;
    for (int64_t x = 1; x <= total; ++x) if (x != held) prog[g.u(np)].push_back(x);
    for (auto& p : prog) { for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[i - 1 - g.u(i)]); for (auto x : p) d += std::to_string(x) + " "; d += "| "; }
    std::vector<std::pair<int, int>> wp; d += " waiters: ";
    for (int t = 0; t < nw; ++t) { int n = 1 + (int)g.biased(3, 1, 2); wp.push_back({ (int)R.w.size(), n }); for (int k = 0; k < n; ++k) { R.w.push_back({}); R.w.back().target = g.in(1, total); d += std::to_string(R.w.back().target) + " "; } d += "| "; }
    g.note("buffer %zu, %lld published last, publishers: %s", N, (long long)held, d.c_str());
    uint64_t sw = 0;
    vs::run(g, [&] {
        std::vector<std::vs_thread> th;
        for (int t = 0; t < np; ++t) th.emplace_back([&, t] {
            for (size_t i = 0; i < prog[t].size(); ++i)
            {
                int64_t x = prog[t][i], y = x; while (i + 1 < prog[t].size() && prog[t][i + 1] == y + 1) { ++y; ++i; }
                for (int64_t k = x; k <= y; ++k) R.data[k] = (int)k;
                { vs::Quiet q; for (int64_t k = x; k <= y; ++k) R.pubs.insert(k); while (R.pubs.count(R.contig + 1)) ++R.contig; }
                if (y > x) sq.publish(sequence_range<S>(R.seq(x), R.seq(y + 1))); else sq.publish(R.seq(x));
            }
        });
        for (int t = 0; t < nw; ++t) th.emplace_back([&, t] { waiter(R, wp[t].first, wp[t].second); });
        for (auto& x : th) x.join();
        sw = vs::switches();
        { vs::Quiet q; for (auto& c : wp) for (int i = c.first; i < c.first + c.second && R.w[i].target < held; ++i) REQUIRE(R.w[i].count == 1, "still waiting for %lld although everything below %lld is published", (long long)R.w[i].target, (long long)held); }
        if (held <= total)
        {
            R.data[held] = (int)held; { vs::Quiet q; R.pubs.insert(held); while (R.pubs.count(R.contig + 1)) ++R.contig; }
            sq.publish(R.seq(held));
        }
    });
    for (auto& x : R.w) REQUIRE(x.count == 1, "the wait for %lld completed %d times although everything is published", (long long)x.target, x.count);
    if (sw > (uint64_t)(np + nw) * 2 && R.w.size() > 1) g.nontrivial();
}
PBT_SECTION(mpsc_waiters, 60000, 2000000)
{
    switch (g.u(3)) { case 0: room<uint8_t>(g); break; case 1: room<uint32_t>(g); break; default: room<size_t>(g); }
}
