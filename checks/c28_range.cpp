#include "common.h"
#include <memory>
#include "macoro/sequence_range.h"
#include "macoro/sequence_traits.h"
using namespace macoro;

// reference arithmetic, independent of the code under test: everything modulo 2^bits in 128 bits
template<class S> struct Ref
{
    static constexpr int bits = sizeof(S) * 8;
    using W = unsigned __int128;
    static W mod(W x) { return x & (((W)1 << bits) - 1); }
    static __int128 diff(S a, S b) { W d = mod((W)a - (W)b); return (d >> (bits - 1)) & 1 ? (__int128)d - ((__int128)1 << bits) : (__int128)d; }
    static S add(S a, W n) { return (S)mod((W)a + n); }
};
template<class S> S value(pbt::Gen& g)
{
    const int B = Ref<S>::bits;
    switch (g.u(5))
    {
    case 0: return (S)g.u(20);
    case 1: return (S)(0 - (S)g.u(20));                          // just below the wrap
    case 2: return (S)(((S)1 << (B - 1)) + (S)g.in(-10, 10));    // around the sign change
    case 3: return (S)(((S)1 << g.u(B)) + (S)g.in(-2, 2));
    default: return (S)((g.u(1ull << 32) << 32) ^ g.u(1ull << 32));
    }
}
template<class S> void oneRange(pbt::Gen& g)
{
    using R = sequence_range<S>; using Sz = typename R::size_type; using T = sequence_traits<S>; using D = typename T::difference_type;
    S b = value<S>(g); Sz n = (Sz)(g.chance(1, 10) ? value<S>(g) : g.u(sizeof(S) == 1 ? 256 : 600)); S e = Ref<S>::add(b, n);
    g.note("%zu-bit range [%llu, +%llu)", sizeof(S) * 8, (unsigned long long)b, (unsigned long long)n);
    R r(b, e);
    REQUIRE(r.size() == n, "size %llu, expected %llu", (unsigned long long)r.size(), (unsigned long long)n);
    REQUIRE(r.empty() == (n == 0), "empty() is %d for %llu elements", r.empty(), (unsigned long long)n);
    REQUIRE(R().empty() && R().size() == 0, "a default range is not empty");
    bool wrap = n && (S)(e - 1) < b;
    if (wrap) { g.label("range wraps"); }
    if (n > 1) g.nontrivial();
    if (n) { REQUIRE(r.front() == b, "front"); REQUIRE(r.back() == Ref<S>::add(b, (typename Ref<S>::W)n - 1), "back is %llu", (unsigned long long)r.back()); }
    if (n <= 600)
    {
        Sz i = 0;
        for (S x : r) { S want = Ref<S>::add(b, i); REQUIRE(x == want, "element %llu is %llu, expected %llu", (unsigned long long)i, (unsigned long long)x, (unsigned long long)want); REQUIRE(r[i] == want, "operator[] of %llu", (unsigned long long)i); if (++i > 600) break; }
        REQUIRE(i == n, "enumerated %llu of %llu", (unsigned long long)i, (unsigned long long)n);
        i = n; for (auto it = r.end(); it != r.begin();) { auto old = it--; --i; REQUIRE(*it == Ref<S>::add(b, i), "backwards element %llu", (unsigned long long)i); auto again = it; REQUIRE(again++ == it && again == old, "iterator increments disagree"); auto p = old; REQUIRE(--p == it, "--"); auto q = it; REQUIRE(++q == old, "++"); }
        REQUIRE(i == 0, "backwards enumeration");
        if (n) { Sz k = (Sz)g.u(n), m = (Sz)g.u(n); auto a = r.begin() + (D)k, c = r.begin() + (D)m; if (n <= (Sz)std::numeric_limits<D>::max()) { REQUIRE(c - a == (D)((__int128)m - (__int128)k), "iterator distance"); REQUIRE(a + (c - a) == c && c - (c - a) == a, "iterator arithmetic"); } REQUIRE(*a == Ref<S>::add(b, k), "iterator offset"); }
    }
    // prefix and suffix
    Sz c = (Sz)(g.chance(1, 4) ? value<S>(g) : g.u((uint64_t)n + 3)); if (g.chance(1, 8)) c = std::numeric_limits<Sz>::max();
    Sz k = std::min(n, c); S mid = Ref<S>::add(b, k);
    R f = r.first(c), s = r.skip(c);
    REQUIRE(f.size() == k && *f.begin() == b && *f.end() == mid, "first(%llu) of %llu has %llu", (unsigned long long)c, (unsigned long long)n, (unsigned long long)f.size());
    REQUIRE(s.size() == (Sz)(n - k) && *s.begin() == mid && *s.end() == e, "skip(%llu) of %llu has %llu", (unsigned long long)c, (unsigned long long)n, (unsigned long long)s.size());
    REQUIRE(f.empty() == (k == 0) && s.empty() == (k == n), "empty() of a part");
    // laws: first+skip partition the range; skipping in two steps equals skipping at once
    Sz c2 = (Sz)g.u((uint64_t)n + 2); R t = s.skip(c2); Sz total = (Sz)std::min<unsigned __int128>((unsigned __int128)k + c2, n); R u = r.skip(total);
    REQUIRE(*t.begin() == *u.begin() && *t.end() == *u.end(), "skip(a).skip(b) differs from skip(a+b)");
}
template<class S> void oneOrder(pbt::Gen& g)
{
    using T = sequence_traits<S>; S a = value<S>(g), b = g.b() ? value<S>(g) : Ref<S>::add(a, (unsigned __int128)(__int128)g.in(-300, 300));
    if (g.chance(1, 10)) b = Ref<S>::add(a, (unsigned __int128)1 << (Ref<S>::bits - 1));
    auto d = Ref<S>::diff(a, b);
    g.note("%zu-bit %llu vs %llu", sizeof(S) * 8, (unsigned long long)a, (unsigned long long)b);
    REQUIRE((__int128)T::difference(a, b) == d, "difference is %lld, expected %lld", (long long)T::difference(a, b), (long long)d);
    REQUIRE(T::precedes(a, b) == (d < 0), "precedes is %d", T::precedes(a, b));
    REQUIRE(T::initial_sequence == (S)-1 && T::precedes(T::initial_sequence, (S)0), "the initial sequence does not precede zero");
    if (d != 0) g.nontrivial(); if ((a < b) != (d < 0)) g.label("order differs from plain comparison");
}
PBT_SECTION(ranges, 400000, 10000000)
{
    switch (g.u(4)) { case 0: oneRange<uint64_t>(g); break; case 1: oneRange<uint32_t>(g); break; case 2: oneRange<uint16_t>(g); break; case 3: oneRange<uint8_t>(g); break; }
}
PBT_SECTION(ordering, 400000, 10000000)
{
    switch (g.u(4)) { case 0: oneOrder<uint64_t>(g); break; case 1: oneOrder<uint32_t>(g); break; case 2: oneOrder<uint16_t>(g); break; case 3: oneOrder<uint8_t>(g); break; }
}
// every pair of 8-bit numbers, 256 values of a per case
PBT_SECTION(all_bytes, 256, 256)
{
    static int next = 0; uint8_t a = (uint8_t)g.u(256);
    using T = sequence_traits<uint8_t>;
    for (int b = 0; b < 256; ++b) { auto d = Ref<uint8_t>::diff(a, (uint8_t)b); REQUIRE(T::difference(a, (uint8_t)b) == d && T::precedes(a, (uint8_t)b) == (d < 0), "%d vs %d", a, b); sequence_range<uint8_t> r(a, (uint8_t)b); int n = 0; for (uint8_t x : r) { REQUIRE(x == (uint8_t)(a + n), "element"); ++n; } REQUIRE(r.size() == (uint8_t)n && n == (uint8_t)(b - a), "[%d,%d) has %d elements, size %d", a, b, n, (int)r.size()); }
    (void)next; g.nontrivial();
}
