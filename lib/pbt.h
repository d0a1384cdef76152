#pragma once
// Property-based testing engine: choice-sequence generators, forked workers,
// crash/hang capture, leak accounting, shrinking on the choice sequence, replay.
// Nothing in this header is inlined into code under test: all state lives in pbt.cpp,
// which is never instrumented by ThreadSanitizer.
#include <cstdint>
#include <cstddef>
#include <string>
#include <initializer_list>

namespace pbt
{
    struct Gen
    {
        // uniform in [0,n); 0 is the simplest value.
        uint64_t u(uint64_t n);
        // inclusive range, lo is simplest.
        int64_t in(int64_t lo, int64_t hi) { return lo + (int64_t)u((uint64_t)(hi - lo) + 1); }
        bool b() { return u(2) != 0; }
        // true with probability num/den; false is simplest.
        bool chance(unsigned num, unsigned den);
        // value v in [0,n): returns 0 with probability 1-num/den, else uniform in [1,n)
        uint64_t biased(uint64_t n, unsigned num, unsigned den);
        // skewed to small values, in [0,max]
        int size(int max);
        // index chosen with the given weights; first is simplest.
        int weighted(std::initializer_list<int> w);
        template<class T> T pick(std::initializer_list<T> l) { return l.begin()[u(l.size())]; }

        // bookkeeping
        void label(const char* name);                 // counts cases per label (once per case per name)
        void count(const char* name, uint64_t n = 1); // sums
        void nontrivial();                            // this case is non-trivial by the check's rule
        void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
        [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
        void no_leak_check();
        bool replaying();
        uint64_t drawn();                             // number of choices drawn so far
    };

    // the running case's generator
    Gen& gen();

    using CaseFn = void(*)(Gen&);
    struct Section { const char* name; CaseFn fn; long quick; long thorough; };
    void registerSection(Section);
    struct Reg { Reg(const char* n, CaseFn f, long q, long t) { registerSection({ n,f,q,t }); } };

    // live heap blocks now (ASan builds; 0 otherwise)
    int64_t liveBlocks();
    int runMain(int argc, char** argv);
}

#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
// PBT_SECTION(name, quickCases, thoroughCases) { body using g }
#define PBT_SECTION(NAME, Q, T) \
    static void NAME(pbt::Gen& g); \
    static ::pbt::Reg PBT_CAT(NAME,_reg)(#NAME, &NAME, Q, T); \
    static void NAME([[maybe_unused]] pbt::Gen& g)

#define REQUIRE(c, ...) do { if (!(c)) ::pbt::gen().fail("REQUIRE(" #c ") at line %d: " PBT_FMT(__VA_ARGS__), __LINE__ PBT_ARGS(__VA_ARGS__)); } while (0)
#define PBT_FMT(...) PBT_FMT1(__VA_ARGS__ __VA_OPT__(,) "")
#define PBT_FMT1(a, ...) "" a
#define PBT_ARGS(...) __VA_OPT__(PBT_ARGS1(__VA_ARGS__))
#define PBT_ARGS1(a, ...) __VA_OPT__(,) __VA_ARGS__
