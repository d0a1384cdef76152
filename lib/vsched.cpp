// Scheduler core. Compiled without ThreadSanitizer instrumentation; hand-off uses raw
// futex calls so that it creates no happens-before edge visible to ThreadSanitizer.
#include "vsched.h"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

#if defined(PBT_TSAN)
extern "C" {
    void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int);
    void AnnotateIgnoreWritesBegin(const char*, int); void AnnotateIgnoreWritesEnd(const char*, int);
    void AnnotateIgnoreSyncBegin(const char*, int); void AnnotateIgnoreSyncEnd(const char*, int);
    void __tsan_acquire(void*); void __tsan_release(void*);
}
#endif

namespace vs
{
    static const int MAXT = 32;
    enum St { Free, Ready, Blocked, Timed, Done };
    struct T
    {
        int futex; St st; const void* on; int64_t deadline; bool woken; const char* what; int prio; uint64_t consec;
    };
    static T th[MAXT]; static int nT; static int cur;
    static bool act; static pbt::Gen* G; static Opts opt;
    static int64_t vnow; static uint64_t nSteps, nSwitch; static int nPreempt;
    static int mode; // 0 random walk, 1 PCT
    static int den; // random walk: preempt with probability 1/den
    static uint64_t chg[4]; static int nChg, lowPrio;
    static uint64_t cursteps;
    static __thread int tself = -1;
    static __thread int noPre = 0;

    static void fwait(int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
    static void fwake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

    bool active() { return act && tself >= 0; }
    int self() { return tself; }
    int threadCount() { return nT; }
    int64_t nowNs() { return act ? vnow : 0; }
    uint64_t switches() { return nSwitch; }
    uint64_t steps() { return nSteps; }

#if defined(PBT_TSAN)
    static void tsAcq(void* p) { __tsan_acquire(p); }
    static void tsRel(void* p) { __tsan_release(p); }
    // the model's own memory (and intercepted memset and the like on it) is nobody's business
    struct Ign { Ign() { AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); } ~Ign() { AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); } };
#else
    static void tsAcq(void*) {}
    struct Ign { Ign() {} };
#endif
    // ------------------------------------------------------------------ weak memory
    // While at least two threads exist, an atomic load may return an older value than the latest, if the
    // C++20 memory model allows it: nothing that happens before the load may have overwritten it, no
    // thread whose reads happen before the load may have read a later one, and a seq_cst load may not go
    // back before the last seq_cst write. Happens-before is tracked with vector clocks over atomics, locks,
    // fences, thread start and join. Writes take effect in execution order and read-modify-writes read the
    // latest value, so the explored behaviours are a subset of the allowed ones. Oracle code (Quiet), sleeping
    // and the passing of time synchronise everybody: what the checks know about real time is respected.
    struct VC { uint32_t c[MAXT]; void clear() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
    static VC C[MAXT], relF[MAXT], acqF[MAXT], hc, scAll, scF;
    static const int HIST = 6;
    struct Ent { uint64_t val; int tid; uint32_t ts; bool sc, hasRel; VC rel; uint32_t seen[MAXT]; std::shared_ptr<char> sync; };
    struct Loc { Ent e[HIST]; int n = 0; Ent& at(int i) { return e[i % HIST]; } int lo() { return n > HIST ? n - HIST : 0; } };
    static std::unordered_map<const void*, std::unique_ptr<Loc>> locs;
    static std::unordered_map<const void*, VC> lockClk;
    static int weakDen; static uint64_t nStale;
    uint64_t staleReads() { return nStale; }
    static bool wOn() { return weakDen && act && tself >= 0; }
    static bool before(int tid, uint32_t ts, const VC& c) { return c.c[tid] >= ts; }
    void wForget(const void* a) { if (act && !locs.empty()) { Ign ig; locs.erase(a); } }
    static Loc& locOf(const void* a, uint64_t old)
    {
        auto& p = locs[a];
        if (!p) { p.reset(new Loc()); Ent& e = p->e[0]; e.val = old; e.tid = tself; e.ts = 0; e.sc = false; e.hasRel = false; memset(e.seen, 0, sizeof e.seen); p->n = 1; }
        return *p;
    }
    static bool acq(std::memory_order o) { return o != std::memory_order_relaxed && o != std::memory_order_release; }
    static bool rel(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
    static void readFrom(Ent& e, std::memory_order o, bool tsan)
    {
        VC& c = C[tself]; ++c.c[tself];
        if (e.hasRel) { if (acq(o)) c.join(e.rel); else acqF[tself].join(e.rel); }
        if (tsan && acq(o) && e.sync) tsAcq(e.sync.get());
        if (!e.seen[tself]) e.seen[tself] = c.c[tself];
        if (o == std::memory_order_seq_cst) scAll.join(c);
    }
    bool wLoad(const void* a, std::memory_order o, uint64_t cur, uint64_t* val)
    {
        if (!wOn()) return false;
        Ign ig;
        Loc& l = locOf(a, cur); int last = l.n - 1, lb = l.lo(); VC& c = C[tself];
        for (int i = last; i > lb; --i)
        {
            Ent& e = l.at(i); bool must = before(e.tid, e.ts, c) || (o == std::memory_order_seq_cst && (e.sc || before(e.tid, e.ts, scF)));
            for (int t = 0; t < nT && !must; ++t) must = e.seen[t] && before(t, e.seen[t], c);
            if (must) lb = i;
        }
        int k = last; if (lb < last && !noPre) k = last - (int)G->biased(last - lb + 1, 1, weakDen);
        if (l.at(last).val != cur) k = last; // changed behind the model
        readFrom(l.at(k), o, k != last);
        if (k == last) return false;
        ++nStale; *val = l.at(k).val; return true;
    }
    void wSeen(const void* a, std::memory_order o, uint64_t cur) { if (wOn()) { Ign ig; Loc& l = locOf(a, cur); readFrom(l.at(l.n - 1), o, false); } }
    static void append(Loc& l, std::memory_order o, uint64_t val, bool rmw)
    {
        VC& c = C[tself]; ++c.c[tself];
        Ent prev; if (rmw) prev = l.at(l.n - 1);
        Ent& e = l.at(l.n); e.val = val; e.tid = tself; e.ts = c.c[tself]; e.sc = o == std::memory_order_seq_cst; memset(e.seen, 0, sizeof e.seen); e.seen[tself] = e.ts;
        e.rel = relF[tself]; e.hasRel = true; e.sync.reset();
        if (rel(o)) e.rel.join(c);
        if (rmw) { if (prev.hasRel) e.rel.join(prev.rel); e.sync = prev.sync; }
#if defined(PBT_TSAN)
        if (rel(o)) { if (!e.sync) e.sync = std::make_shared<char>(); tsRel(e.sync.get()); }
#endif
        ++l.n; if (e.sc) scAll.join(c);
    }
    void wStore(const void* a, std::memory_order o, uint64_t old, uint64_t val) { if (!wOn()) return; Ign ig; append(locOf(a, old), o, val, false); }
    void wRmw(const void* a, std::memory_order o, uint64_t old, uint64_t val) { if (wOn()) { Ign ig; Loc& l = locOf(a, old); readFrom(l.at(l.n - 1), o, false); append(l, o, val, true); } }
    void wFence(std::memory_order o)
    {
        if (!wOn()) return;
        Ign ig;
        VC& c = C[tself]; ++c.c[tself];
        if (acq(o)) c.join(acqF[tself]);
        if (o == std::memory_order_seq_cst) { c.join(scAll); c.join(scF); scF.join(c); scAll.join(c); }
        if (rel(o)) relF[tself] = c;
    }
    static void wSync(VC& v) { if (!wOn()) return; Ign ig; ++C[tself].c[tself]; C[tself].join(v); v.join(C[tself]); }
    static void wAcq(const void* p) { if (!wOn()) return; Ign ig; auto i = lockClk.find(p); if (i != lockClk.end()) C[tself].join(i->second); }
    static void wRel(const void* p) { if (!wOn()) return; Ign ig; ++C[tself].c[tself]; auto r = lockClk.try_emplace(p); if (r.second) r.first->second.clear(); r.first->second.join(C[tself]); }
    static void wTime() { if (!weakDen) return; Ign ig; VC all; all.clear(); for (int i = 0; i < nT; ++i) all.join(C[i]); for (int i = 0; i < nT; ++i) C[i].join(all); }

    static void dumpFail(const char* why)
    {
        char buf[2048]; int n = 0;
        for (int i = 0; i < nT && n < 1900; ++i)
        {
            const char* s = th[i].st == Ready ? "ready" : th[i].st == Blocked ? "blocked in " : th[i].st == Timed ? "timed wait in " : "done";
            n += snprintf(buf + n, sizeof(buf) - n, " [T%d %s%s]", i, s, (th[i].st == Blocked || th[i].st == Timed) ? th[i].what : "");
        }
        G->fail("%s:%s", why, buf);
    }

    static void handTo(int t, bool wait)
    {
        int me = tself;
        if (t == me && wait) return;
        ++nSwitch; cur = t; cursteps = 0;
        fwake(&th[t].futex);
        if (wait) fwait(&th[me].futex);
    }

    // Returns the earliest timed waiter or -1.
    static int earliest()
    {
        int e = -1;
        for (int i = 0; i < nT; ++i) if (th[i].st == Timed && (e < 0 || th[i].deadline < th[e].deadline)) e = i;
        return e;
    }
    static void expire(int e)
    {
        if (th[e].deadline > vnow) vnow = th[e].deadline;
        th[e].st = Ready; th[e].woken = false; th[e].on = nullptr; wTime();
    }

    // picks the next thread when the current one cannot continue
    static int pickAny()
    {
        while (true)
        {
            int r[MAXT], n = 0;
            for (int i = 0; i < nT; ++i) if (th[i].st == Ready) r[n++] = i;
            if (n)
            {
                if (mode == 1) { int b = r[0]; for (int i = 1; i < n; ++i) if (th[r[i]].prio > th[b].prio) b = r[i]; return b; }
                return r[n == 1 ? 0 : G->u(n)];
            }
            int e = earliest();
            if (e < 0) dumpFail("deadlock: no thread can make progress");
            expire(e);
        }
    }

    void point(const char* what)
    {
        if (!act || tself < 0 || noPre) return;
        (void)what;
        ++nSteps; ++cursteps;
        if (nSteps > 400000) dumpFail("livelock: too many steps");
        int me = tself;
        int r[MAXT], n = 0;
        for (int i = 0; i < nT; ++i) if (i != me && th[i].st == Ready) r[n++] = i;
        if (opt.tick && mode == 0 && G->biased(2, 1, 50))
        {
            static const int64_t d[] = { 1, 100, 1000, 1000000, 20000000 };
            vnow += d[G->u(5)];
            for (int i = 0; i < nT; ++i) if (th[i].st == Timed && th[i].deadline <= vnow) { expire(i); r[n++] = i; }
        }
        if (opt.timeJumps && mode == 0)
        {
            int e = earliest();
            if (e >= 0 && G->biased(2, 1, 40)) { expire(e); r[n++] = e; }
        }
        if (!n) return;
        int t = me;
        if (cursteps > 300) { t = r[0]; th[me].prio = --lowPrio; for (int i = 1; i < n; ++i) if (th[r[i]].prio > th[t].prio) t = r[i]; }
        else if (mode == 1)
        {
            for (int i = 0; i < nChg; ++i) if (chg[i] == nSteps) th[me].prio = --lowPrio;
            for (int i = 0; i < n; ++i) if (th[r[i]].prio > th[t].prio) t = r[i];
        }
        else if (nPreempt < opt.maxPreempt)
        {
            uint64_t c = G->biased(n + 1, 1, den);
            if (c) { t = r[c - 1]; ++nPreempt; }
        }
        if (t != me) handTo(t, true);
    }

    static bool doBlock(const void* on, bool timed, int64_t ns, const char* what)
    {
        if (!act || tself < 0) { fprintf(stderr, "vsched: blocking outside the scheduler (%s)\n", what); _exit(78); }
        if (noPre) G->fail("harness: blocking inside oracle code (%s)", what);
        int me = tself; T& t = th[me];
        ++nSteps;
        t.what = what; t.on = on; t.woken = false; t.deadline = ns; t.st = timed ? Timed : Blocked;
        int nx = pickAny();
        if (nx != me) handTo(nx, true);
        return t.woken;
    }
    void block(const void* on, const char* what) { doBlock(on, false, 0, what); }
    bool blockUntil(const void* on, int64_t ns, const char* what)
    {
        if (ns <= vnow) { point(what); return false; }
        return doBlock(on, true, ns, what);
    }
    void sleepUntil(int64_t ns) { static char x; blockUntil(&x, ns, "sleep"); }
    static void wk(int i) { th[i].st = Ready; th[i].woken = true; th[i].on = nullptr; }
    void wakeAll(const void* on)
    {
        if (!act) return;
        for (int i = 0; i < nT; ++i) if ((th[i].st == Blocked || th[i].st == Timed) && th[i].on == on) wk(i);
    }
    void wakeOne(const void* on)
    {
        if (!act) return;
        int r[MAXT], n = 0;
        for (int i = 0; i < nT; ++i) if ((th[i].st == Blocked || th[i].st == Timed) && th[i].on == on) r[n++] = i;
        if (n) wk(r[n == 1 ? 0 : G->u(n)]);
    }
    bool spuriousFail() { return active() && opt.spurious && !noPre && G->biased(2, 1, 25) != 0; }
    bool spuriousWake() { return active() && opt.spurious && !noPre && G->biased(2, 1, 25) != 0; }

    NoPreempt::NoPreempt() { ++noPre; }
    NoPreempt::~NoPreempt() { --noPre; }
    Quiet::Quiet()
    {
        ++noPre; wSync(hc);
#if defined(PBT_TSAN)
        AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); AnnotateIgnoreSyncBegin(__FILE__, __LINE__);
#endif
    }
    Quiet::~Quiet()
    {
#if defined(PBT_TSAN)
        AnnotateIgnoreSyncEnd(__FILE__, __LINE__); AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
#endif
        wSync(hc);
        --noPre;
    }
    void tsanAcquire(void* p)
    {
        wAcq(p);
#if defined(PBT_TSAN)
        __tsan_acquire(p);
#endif
    }
    void tsanRelease(void* p)
    {
        wRel(p);
#if defined(PBT_TSAN)
        __tsan_release(p);
#endif
    }

    void mutexDestroy(int* o) { if (act) { Ign ig; lockClk.erase(o); } if (active() && *o) G->fail("mutex destroyed while locked"); }
    void mutexLock(int* o)
    {
        point("mutex.lock");
        while (*o)
        {
            if (*o == tself + 2) G->fail("mutex locked recursively");
            block(o, "mutex.lock");
        }
        *o = tself + 2; tsanAcquire(o);
    }
    bool mutexTryLock(int* o)
    {
        point("mutex.try_lock");
        if (*o) return false;
        *o = tself + 2; tsanAcquire(o);
        return true;
    }
    void mutexUnlock(int* o)
    {
        if (*o != tself + 2) G->fail("mutex unlocked by a thread that does not hold it");
        tsanRelease(o);
        *o = 0;
        wakeAll(o);
        point("mutex.unlock");
    }
    int prepareThread()
    {
        if (!act) { fprintf(stderr, "vsched: thread started outside the scheduler\n"); _exit(78); }
        if (nT >= MAXT) G->fail("harness: too many threads");
        int i = nT++; th[i] = T{}; th[i].st = Ready; th[i].what = "";
        th[i].prio = mode == 1 ? (int)G->u(1000) + 1 : 0;
        Ign ig;
        if (tself >= 0) { ++C[tself].c[tself]; C[i] = C[tself]; } relF[i].clear(); acqF[i].clear();
        return i;
    }
    void enterThread(int idx) { tself = idx; fwait(&th[idx].futex); }
    void exitThread()
    {
        int me = tself; th[me].st = Done; wakeAll(&th[me]);
        int nx = pickAny();
        tself = -1;
        ++nSwitch; cur = nx; cursteps = 0;
        fwake(&th[nx].futex);
    }
    bool finished(int i) { return th[i].st == Done; }
    void waitThread(int i) { while (th[i].st != Done) block(&th[i], "thread.join"); if (tself >= 0) { Ign ig; C[tself].join(C[i]); } }

    void run(pbt::Gen& g, void (*fn)(void*), void* arg, Opts o)
    {
        G = &g; opt = o; nT = 1; th[0] = T{}; th[0].st = Ready; th[0].what = ""; cur = 0; tself = 0; noPre = 0;
        static const int WD[] = { 0, 4, 2, 12 }; weakDen = WD[g.u(4)]; nStale = 0;
        C[0].clear(); relF[0].clear(); acqF[0].clear(); hc.clear(); scAll.clear(); scF.clear(); locs.clear(); lockClk.clear();
        vnow = 1000; nSteps = nSwitch = 0; nPreempt = 0; cursteps = 0;
        mode = g.weighted({ 3, 1 });
        if (mode == 0) { static const int D[] = { 30, 2, 4, 10 }; den = D[g.u(4)]; }
        else
        {
            nChg = (int)g.u(4); lowPrio = 0; th[0].prio = (int)g.u(1000) + 1;
            int range = 20 << g.u(5);
            for (int i = 0; i < nChg; ++i) chg[i] = g.u(range) + 1;
        }
        act = true;
        fn(arg);
        for (int i = 1; i < nT; ++i) if (th[i].st != Done) dumpFail("harness: thread still running at the end of the case");
        if (nStale) g.label("older values of atomics read");
        act = false; tself = -1; weakDen = 0; locs.clear(); lockClk.clear();
    }
}
