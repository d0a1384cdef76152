#include "common.h"
#include "vsched_on.h"
#include "macoro/barrier.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "all_macoro_src.inc"
#include "vsched_off.h"
using namespace macoro;

static Drv waitNative(barrier& b, int& resumed) { co_await b; ++resumed; }
static task<void> waitTask(barrier& b, int& resumed) { co_await b; ++resumed; }
static task<void> waitMacro(barrier& b, int& resumed) { MC_BEGIN(task<void>, &b, &resumed); MC_AWAIT(b); ++resumed; MC_END(); }
static Drv drive(task<void> t) { co_await t; }

// Model-based: one thread, every history of add / increment / decrement / await / count.
PBT_SECTION(barrier_model, 300000, 6000000)
{
    size_t model = g.size(4);
    barrier b(model);
    int resumed = 0, expect = 0; bool pending = false; int zeros = 0, awaitsPending = 0;
    g.note("barrier(%zu)", model);
    int n = 1 + g.size(30);
    for (int i = 0; i < n; ++i)
    {
        switch (g.weighted({ 4, 3, 2, 2, 1 }))
        {
        case 0:
            if (!model) break;
            --model;
            if (!model) { ++zeros; if (pending) { pending = false; ++expect; } }
            g.note("decrement -> %zu", model);
            { auto r = b.decrement(); REQUIRE(r == model, "decrement returned %zu, model %zu", r, model); }
            break;
        case 1:
        {
            if (pending && model == 0) break;
            int flavour = (int)g.u(3);
            if (pending) break;
            g.note("await (%s)", flavour == 0 ? "native" : flavour == 1 ? "task" : "macro");
            if (model) { pending = true; ++awaitsPending; } else ++expect;
            if (flavour == 0) waitNative(b, resumed);
            else if (flavour == 1) drive(waitTask(b, resumed));
            else drive(waitMacro(b, resumed));
            break;
        }
        case 2: { ++model; g.note("increment -> %zu", model); auto r = b.increment(); REQUIRE(r == model, "increment returned %zu, model %zu", r, model); break; }
        case 3: { size_t k = g.u(5); model += k; g.note("add(%zu) -> %zu", k, model); auto r = b.add(k); REQUIRE(r == model, "add returned %zu, model %zu", r, model); break; }
        case 4: break;
        }
        REQUIRE(b.count() == model, "count is %zu, model %zu", b.count(), model);
        REQUIRE(resumed == expect, "resumed %d times, expected %d (count %zu)", resumed, expect, model);
    }
    while (model) { --model; if (!model && pending) { pending = false; ++expect; } b.decrement(); REQUIRE(resumed == expect, "resumed %d, expected %d at count %zu", resumed, expect, model); }
    if (awaitsPending) g.nontrivial();
    if (zeros > 1) g.label("reused after zero");
}

struct Shared
{
    barrier* b; int rounds; int nThreads;
    int decs[4][4]; bool extra[4][4];
    Gate go[4];
    int begun[4] = {}; int resumed = 0; bool done = false;
    int total[4] = {};
    Mark m[4][4];
};

static Drv roundsCoro(Shared& s)
{
    for (int r = 0; r < s.rounds; ++r)
    {
        s.b->add(s.total[r]);
        s.go[r].release();
        co_await *s.b;
        for (int t = 0; t < s.nThreads; ++t) if (s.decs[r][t]) s.m[r][t].see("await");
        vs::Quiet q;
        ++s.resumed;
        if (s.resumed != r + 1) pbt::gen().fail("round %d: resumed %d times", r, s.resumed);
        if (s.begun[r] != s.total[r]) pbt::gen().fail("round %d: resumed after %d of %d decrements", r, s.begun[r], s.total[r]);
    }
    delete s.b;
    vs::Quiet q;
    s.done = true;
}

// Schedules: several threads decrement while one coroutine awaits, over reuse rounds; the barrier is
// destroyed by the coroutine right after its last wait.
PBT_SECTION(barrier_schedules, 150000, 4000000)
{
    Shared s;
    s.rounds = 1 + g.size(3) % 3; s.nThreads = 1 + (int)g.u(3);
    for (int r = 0; r < s.rounds; ++r) for (int t = 0; t < s.nThreads; ++t)
    {
        s.decs[r][t] = (int)g.u(3); s.extra[r][t] = g.chance(1, 4);
        s.total[r] += s.decs[r][t];
    }
    s.b = new barrier(0);
    g.note("threads=%d rounds=%d decrements per round: %d %d %d", s.nThreads, s.rounds, s.total[0], s.total[1], s.total[2]);
    uint64_t sw = 0;
    vs::run(g, [&] {
        std::vector<std::vs_thread> th;
        for (int t = 0; t < s.nThreads; ++t)
            th.emplace_back([&s, t] {
                for (int r = 0; r < s.rounds; ++r)
                {
                    if (!s.decs[r][t]) continue;
                    s.go[r].wait();
                    for (int i = 0; i < s.decs[r][t]; ++i)
                    {
                        bool ex; barrier* b;
                        { vs::Quiet q; ex = s.extra[r][t]; b = s.b; }
                        if (ex) { b->increment(); b->decrement(); }
                        if (i + 1 == s.decs[r][t]) s.m[r][t].set();
                        { vs::Quiet q; ++s.begun[r]; }
                        b->decrement();
                    }
                }
            });
        roundsCoro(s);
        for (auto& t : th) t.join();
        sw = vs::switches();
    });
    REQUIRE(s.done, "the waiter was never resumed (resumed %d of %d rounds)", s.resumed, s.rounds);
    if (sw > (uint64_t)s.nThreads * 2 && s.total[0]) g.nontrivial();
    if (s.rounds > 1) g.label("several rounds");
}
