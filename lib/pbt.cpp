#include "pbt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <vector>
#include <string>
#include <atomic>
#include <unordered_set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <exception>

#if defined(PBT_ASAN)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=0:quarantine_size_mb=8:"
        "detect_stack_use_after_return=0:handle_abort=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=12:thread_local_quarantine_size_kb=64";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=67"; }
#endif
#if defined(PBT_TSAN)
extern "C" const char* __tsan_default_options() {
    return "exitcode=66:halt_on_error=1:report_signal_unsafe=0:report_thread_leaks=0:history_size=3:report_destroy_locked=0:report_mutex_bugs=0";
}
#endif

namespace pbt
{
    static const uint32_t MAXC = 1 << 17;
    static const uint32_t NOTESZ = 1 << 17;
    static const int NLAB = 96;
    struct Label { char name[64]; uint64_t n; uint64_t lastCase; };

    struct Shared
    {
        std::atomic<uint64_t> caseIdx;
        std::atomic<uint64_t> beat;
        std::atomic<int> state; // 0 idle 1 in case 2 done
        std::atomic<int> failed;
        uint32_t nChoices;
        uint64_t choices[MAXC];
        char fail[8192];
        char note[NOTESZ];
        uint32_t noteLen;
        Label lab[NLAB];
        uint64_t evals, nontriv, leakReruns;
        uint64_t nHash, maxHash;
        char samples[6][6000];
        int nSamples;
    };

    static Shared* sh;           // current worker's shared area
    static uint64_t* hashArea;   // current worker's hashes
    static bool replayMode;
    static std::vector<uint64_t>* replayChoices;
    static uint64_t rng;
    static bool caseNontriv, leakCheck = true, wantNotes;
    static uint64_t caseSerial;

    static std::vector<Section>& secs() { static std::vector<Section> s; return s; }
    void registerSection(Section s) { secs().push_back(s); }

    static Gen theGen;
    Gen& gen() { return theGen; }

    static std::atomic<int64_t> live{ 0 };
#if defined(PBT_ASAN)
    static void mh(const volatile void* p, size_t) { if (p) live.fetch_add(1, std::memory_order_relaxed); }
    static void fh(const volatile void* p) { if (p) live.fetch_sub(1, std::memory_order_relaxed); }
#endif
    int64_t liveBlocks() { return live.load(std::memory_order_relaxed); }

    static uint64_t splitmix(uint64_t& s)
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    static uint64_t rawrand() { return splitmix(rng); }

    // Records value v (already mapped into [0,n)).
    static uint64_t record(uint64_t n, uint64_t v)
    {
        if (sh->nChoices >= MAXC) gen().fail("harness: too many choices");
        if (replayMode)
        {
            v = sh->nChoices < replayChoices->size() ? (*replayChoices)[sh->nChoices] : 0;
            if (v >= n) v = n ? v % n : 0;
        }
        sh->choices[sh->nChoices++] = v;
        return v;
    }
    uint64_t Gen::u(uint64_t n)
    {
        if (n <= 1) return 0;
        return record(n, replayMode ? 0 : rawrand() % n);
    }
    bool Gen::chance(unsigned num, unsigned den)
    {
        return record(2, replayMode ? 0 : (rawrand() % den < num)) != 0;
    }
    uint64_t Gen::biased(uint64_t n, unsigned num, unsigned den)
    {
        if (n <= 1) return 0;
        uint64_t v = 0;
        if (!replayMode && rawrand() % den < num) v = 1 + rawrand() % (n - 1);
        return record(n, v);
    }
    int Gen::size(int max)
    {
        uint64_t v = 0;
        if (!replayMode)
        {
            // mixture: small geometric, or uniform
            uint64_t r = rawrand();
            if ((r & 3) == 0) v = rawrand() % (max + 1);
            else { uint64_t m = 1 + rawrand() % 8; while (v < (uint64_t)max && rawrand() % (m + 1)) ++v; }
        }
        return (int)record((uint64_t)max + 1, v);
    }
    int Gen::weighted(std::initializer_list<int> w)
    {
        uint64_t tot = 0; for (int x : w) tot += x;
        uint64_t r = replayMode ? 0 : rawrand() % tot;
        uint64_t v = 0;
        if (!replayMode) for (int x : w) { if (r < (uint64_t)x) break; r -= x; ++v; }
        v = record(w.size(), v);
        if (w.begin()[v] == 0) { v = 0; while (w.begin()[v] == 0) ++v; } // zero weight: never allowed
        return (int)v;
    }
    static Label* findLabel(const char* name)
    {
        for (int i = 0; i < NLAB; ++i)
        {
            if (sh->lab[i].name[0] == 0) { strncpy(sh->lab[i].name, name, sizeof(sh->lab[i].name) - 1); return &sh->lab[i]; }
            if (!strncmp(sh->lab[i].name, name, sizeof(sh->lab[i].name) - 1)) return &sh->lab[i];
        }
        return nullptr;
    }
    void Gen::label(const char* name)
    {
        Label* l = findLabel(name);
        if (l && l->lastCase != caseSerial) { l->lastCase = caseSerial; ++l->n; }
    }
    void Gen::count(const char* name, uint64_t n) { Label* l = findLabel(name); if (l) l->n += n; }
    void Gen::nontrivial() { caseNontriv = true; }
    void Gen::no_leak_check() { leakCheck = false; }
    bool Gen::replaying() { return replayMode; }
    uint64_t Gen::drawn() { return sh->nChoices; }
    static void vnote(const char* fmt, va_list ap)
    {
        if (sh->noteLen + 512 >= NOTESZ) return;
        int n = vsnprintf(sh->note + sh->noteLen, 500, fmt, ap);
        if (n < 0) return;
        if (n > 499) n = 499;
        sh->noteLen += n;
        sh->note[sh->noteLen++] = '\n';
        sh->note[sh->noteLen] = 0;
    }
    void Gen::note(const char* fmt, ...)
    {
        if (!wantNotes) return;
        va_list ap; va_start(ap, fmt); vnote(fmt, ap); va_end(ap);
    }
    void Gen::fail(const char* fmt, ...)
    {
        va_list ap; va_start(ap, fmt);
        vsnprintf(sh->fail, sizeof(sh->fail), fmt, ap);
        va_end(ap);
        sh->failed.store(1);
        _exit(77);
    }

    static double now()
    {
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec;
    }
    static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        auto* c = (const unsigned char*)p; while (n--) { h ^= *c++; h *= 1099511628211ull; } return h;
    }

    static void runOnce(Section& s)
    {
        sh->nChoices = 0; sh->noteLen = 0; sh->note[0] = 0;
        caseNontriv = false;
        try { s.fn(theGen); }
        catch (std::exception& e) { theGen.fail("escaped exception: %s", e.what()); }
        catch (...) { theGen.fail("escaped exception of unknown type"); }
    }

    static void runCase(Section& s)
    {
        ++caseSerial; leakCheck = true;
        int64_t a = liveBlocks();
        runOnce(s);
        int64_t b = liveBlocks();
#if defined(PBT_ASAN)
        if (leakCheck && b - a > 0)
        {
            // rerun with the same choices: lazily allocated process-wide state is not a leak.
            ++sh->leakReruns;
            std::vector<uint64_t> c(sh->choices, sh->choices + sh->nChoices);
            auto* oldR = replayChoices; bool oldM = replayMode; bool nt = caseNontriv;
            replayChoices = &c; replayMode = true;
            int64_t d = 0; bool leak = true;
            for (int i = 0; i < 3 && leak; ++i)
            {
                a = liveBlocks(); runOnce(s); b = liveBlocks();
                d = b - a; if (d <= 0) leak = false;
            }
            replayChoices = oldR; replayMode = oldM; caseNontriv = nt;
            if (leak) theGen.fail("leak: %lld heap block(s) still allocated after the case", (long long)d);
        }
#else
        (void)a; (void)b;
#endif
    }

    struct Area { Shared* s; uint64_t* h; size_t hcap; };
    static Area makeArea(size_t hcap)
    {
        Area a; a.hcap = hcap;
        a.s = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        a.h = (uint64_t*)mmap(0, (hcap + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (a.s == MAP_FAILED || a.h == MAP_FAILED) { perror("mmap"); exit(2); }
        return a;
    }

    static uint64_t caseSeed(uint64_t seed, const char* sec, uint64_t i)
    {
        uint64_t h = fnv(sec, strlen(sec), 1469598103934665603ull ^ (seed * 0x9e3779b97f4a7c15ull));
        h ^= i * 0xd1342543de82ef95ull; splitmix(h); return h;
    }

    struct Failure { std::vector<uint64_t> choices; std::string msg, note, log; uint64_t idx; };

    static std::string slurp(const char* path, size_t maxn = 24000)
    {
        std::string r; FILE* f = fopen(path, "r"); if (!f) return r;
        char buf[4096]; size_t n;
        while (r.size() < maxn && (n = fread(buf, 1, sizeof(buf), f)) > 0) r.append(buf, n);
        fclose(f); if (r.size() > maxn) r.resize(maxn); return r;
    }
    static std::string statusMsg(int st, Shared* s, const std::string& log, bool hang)
    {
        if (hang) return "hang: the case made no progress within the watchdog limit";
        if (s->failed.load()) return s->fail;
        std::string r;
        if (WIFSIGNALED(st)) r = std::string("killed by signal ") + strsignal(WTERMSIG(st));
        else r = "exited with status " + std::to_string(WEXITSTATUS(st));
        size_t p = log.find("ERROR: AddressSanitizer");
        if (p == std::string::npos) p = log.find("WARNING: ThreadSanitizer");
        if (p == std::string::npos) p = log.find("runtime error");
        if (p == std::string::npos) p = log.find("Assertion");
        if (p == std::string::npos) p = log.find("terminate called");
        if (p != std::string::npos) { size_t e = log.find('\n', p); r += ": " + log.substr(p, e == std::string::npos ? 200 : std::min<size_t>(e - p, 300)); }
        return r;
    }

    static int watchdogSec = 25;
    static std::string tmpdir;

    // Runs one case with given choices in a child. Returns true if it failed.
    static bool replayChild(Section& s, const std::vector<uint64_t>& ch, Area& a, Failure* out, int wd, bool useSeed = false, uint64_t seed = 0)
    {
        memset((void*)a.s, 0, offsetof(Shared, choices));
        a.s->fail[0] = 0; a.s->noteLen = 0; a.s->note[0] = 0; a.s->nChoices = 0;
        std::string logp = tmpdir + "/replay.log";
        pid_t pid = fork();
        if (pid == 0)
        {
            int fd = open(logp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
            sh = a.s; hashArea = nullptr;
            std::vector<uint64_t> c = ch;
            if (!useSeed) { replayMode = true; replayChoices = &c; }
            else { replayMode = false; rng = seed; }
            wantNotes = true;
            runCase(s);
            _exit(0);
        }
        double t0 = now(); int st = 0; bool hang = false;
        useconds_t slp = 100;
        while (true)
        {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (now() - t0 > wd) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
            usleep(slp); if (slp < 5000) slp += 100;
        }
        bool failed = hang || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (failed && out)
        {
            out->log = slurp(logp.c_str());
            out->msg = statusMsg(st, a.s, out->log, hang);
            out->note = std::string(a.s->note, a.s->noteLen);
            out->choices.assign(a.s->choices, a.s->choices + a.s->nChoices);
        }
        return failed;
    }

    static std::string kindOf(const std::string& m)
    {
        // failure class used while shrinking: message without digits
        std::string k; for (char c : m) if (!(c >= '0' && c <= '9')) k += c;
        size_t p = k.find(" on unknown address"); if (p != std::string::npos) k.resize(p);
        p = k.find("on address"); if (p != std::string::npos) k.resize(p);
        p = k.find("(pid="); if (p != std::string::npos) k.resize(p);
        return k.substr(0, 60);
    }

    static void shrink(Section& s, Area& a, Failure& f, double budget)
    {
        double t0 = now();
        bool hang = f.msg.rfind("hang", 0) == 0;
        int wd = hang ? 6 : watchdogSec;
        std::string kind = kindOf(f.msg);
        auto attempt = [&](const std::vector<uint64_t>& c) {
            Failure o; if (!replayChild(s, c, a, &o, wd)) return false;
            if (kindOf(o.msg) != kind) return false;
            // accept when not larger
            if (o.choices.size() > c.size()) o.choices.resize(std::min(o.choices.size(), c.size()));
            std::vector<uint64_t> nc = o.choices; while (!nc.empty() && nc.back() == 0) nc.pop_back();
            if (nc.size() > f.choices.size() || (nc.size() == f.choices.size() && nc >= f.choices)) return false;
            f.choices = nc; f.note = o.note; f.log = o.log; f.msg = o.msg;
            return true;
        };
        { auto c = f.choices; while (!c.empty() && c.back() == 0) c.pop_back(); f.choices = c; }
        bool progress = true;
        while (progress && now() - t0 < budget)
        {
            progress = false;
            for (size_t k = f.choices.size() / 2 + 1; k >= 1; k /= 2)
            {
                for (size_t i = f.choices.size() > k ? f.choices.size() - k : 0;;)
                {
                    if (now() - t0 > budget) return;
                    if (i < f.choices.size())
                    {
                        auto c = f.choices; size_t e = std::min(c.size(), i + k);
                        c.erase(c.begin() + i, c.begin() + e);
                        if (attempt(c)) progress = true;
                        else
                        {
                            c = f.choices; e = std::min(c.size(), i + k); bool any = false;
                            for (size_t j = i; j < e; ++j) { any |= c[j] != 0; c[j] = 0; }
                            if (any && attempt(c)) progress = true;
                        }
                    }
                    if (i == 0) break;
                    i = i > k ? i - k : 0;
                }
                if (k == 1) break;
            }
            for (size_t i = 0; i < f.choices.size(); ++i)
            {
                while (i < f.choices.size() && f.choices[i] > 0 && now() - t0 < budget)
                {
                    auto c = f.choices; uint64_t v = c[i];
                    c[i] = v / 2; if (attempt(c)) { progress = true; continue; }
                    c = f.choices; c[i] = v - 1; if (v / 2 != v - 1 && attempt(c)) { progress = true; continue; }
                    break;
                }
            }
        }
    }

    static std::string jstr(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }

    static void stopWorkers(std::vector<pid_t>& w) { for (auto& p : w) if (p > 0) kill(p, SIGKILL); }

    int runMain(int argc, char** argv)
    {
        std::string section, out, replay; uint64_t seed = 1; long cases = -1; double tlimit = 1e9; int nw = 8; bool thorough = false; bool list = false; double shrinkT = 25; double scale = 1;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--list") list = true;
            else if (a == "--section") section = nx();
            else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
            else if (a == "--cases") cases = atol(nx().c_str());
            else if (a == "--scale") scale = atof(nx().c_str());
            else if (a == "--time") tlimit = atof(nx().c_str());
            else if (a == "--workers") nw = atoi(nx().c_str());
            else if (a == "--tier") thorough = nx() == "thorough";
            else if (a == "--out") out = nx();
            else if (a == "--replay") replay = nx();
            else if (a == "--shrink") shrinkT = atof(nx().c_str());
            else if (a == "--watchdog") watchdogSec = atoi(nx().c_str());
        }
        if (list) { for (auto& s : secs()) printf("%s %ld %ld\n", s.name, s.quick, s.thorough); return 0; }
        Section* s = nullptr; for (auto& x : secs()) if (section == x.name) s = &x;
        if (!s) { fprintf(stderr, "no such section %s\n", section.c_str()); return 2; }
        char td[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(td)) { perror("mkdtemp"); return 2; } tmpdir = td;
        auto cleanup = [&](int nws) { for (int i = 0; i < nws; ++i) unlink((tmpdir + "/w" + std::to_string(i)).c_str()); unlink((tmpdir + "/replay.log").c_str()); rmdir(tmpdir.c_str()); };
        rlimit rl{ 0,0 }; setrlimit(RLIMIT_CORE, &rl);
#if defined(PBT_ASAN)
        __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
        if (!replay.empty())
        {
            // replay: file with whitespace separated choices ('-' = stdin not supported)
            std::vector<uint64_t> c; FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
            unsigned long long v; while (fscanf(f, "%llu", &v) == 1) c.push_back(v); fclose(f);
            Area a = makeArea(1); Failure fl; bool r = replayChild(*s, c, a, &fl, watchdogSec);
            if (r) printf("FAIL %s\n--- story\n%s--- log\n%s\n", fl.msg.c_str(), fl.note.c_str(), fl.log.c_str());
            else { printf("PASS\n--- story\n%s", std::string(a.s->note, a.s->noteLen).c_str()); }
            cleanup(0); return r ? 1 : 0;
        }
        if (cases < 0) cases = (long)((thorough ? s->thorough : s->quick) * scale);
        if (cases < 1) cases = 1;
        double t0 = now();
        if (nw > cases) nw = (int)cases;
        std::vector<Area> areas; std::vector<pid_t> pids(nw, 0); std::vector<uint64_t> nextIdx(nw);
        for (int w = 0; w < nw; ++w) areas.push_back(makeArea(cases / nw + 2));
        auto launch = [&](int w, uint64_t start) {
            Area& a = areas[w];
            a.s->state = 0; a.s->failed = 0; a.s->maxHash = a.hcap;
            pid_t p = fork();
            if (p == 0)
            {
                std::string lp = tmpdir + "/w" + std::to_string(w);
                int fd = open(lp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
                sh = a.s; hashArea = a.h; wantNotes = true; caseSerial = start + 1;
                for (uint64_t i = start; i < (uint64_t)cases; i += nw)
                {
                    if (now() - t0 > tlimit) break;
                    sh->caseIdx = i; rng = caseSeed(seed, s->name, i); replayMode = false;
                    sh->state = 1; sh->beat.fetch_add(1);
                    runCase(*s);
                    sh->evals++;
                    if (caseNontriv)
                    {
                        sh->nontriv++;
                        if (sh->nHash < sh->maxHash) hashArea[sh->nHash++] = fnv(sh->choices, sh->nChoices * 8);
                        uint64_t k = sh->nontriv;
                        if (sh->noteLen && sh->nSamples < 4 && (k == 1 || k == 10 || k == 100 || k == 1000))
                        {
                            snprintf(sh->samples[sh->nSamples], sizeof(sh->samples[0]), "%s", sh->note); sh->nSamples++;
                        }
                    }
                    sh->state = 0; sh->beat.fetch_add(1);
                }
                sh->state = 2; _exit(0);
            }
            pids[w] = p;
        };
        for (int w = 0; w < nw; ++w) launch(w, w);
        std::vector<uint64_t> lastBeat(nw, 0); std::vector<double> lastT(nw, now());
        int alive = nw; bool haveFail = false; Failure fl; int flaky = 0; std::vector<std::string> flakyMsgs;
        while (alive > 0 && !haveFail)
        {
            bool any = false;
            for (int w = 0; w < nw && !haveFail; ++w)
            {
                if (pids[w] <= 0) continue;
                int st; pid_t r = waitpid(pids[w], &st, WNOHANG); bool hang = false;
                Shared* a = areas[w].s;
                if (r == 0)
                {
                    uint64_t b = a->beat.load();
                    if (b != lastBeat[w]) { lastBeat[w] = b; lastT[w] = now(); }
                    else if (now() - lastT[w] > watchdogSec) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); hang = true; r = pids[w]; }
                }
                if (r == pids[w])
                {
                    any = true; pids[w] = 0;
                    if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && a->state.load() == 2) { --alive; continue; }
                    // failure at case idx
                    uint64_t idx = a->caseIdx.load();
                    Failure o; o.idx = idx;
                    std::string log = slurp((tmpdir + "/w" + std::to_string(w)).c_str());
                    o.msg = statusMsg(st, a, log, hang); o.log = log; o.note = std::string(a->note, a->noteLen);
                    o.choices.assign(a->choices, a->choices + std::min<uint32_t>(a->nChoices, MAXC));
                    if (getenv("PBT_VERBOSE")) fprintf(stderr, "[%s] case %llu failed: %s\n", s->name, (unsigned long long)idx, o.msg.c_str());
                    // confirm 3 times
                    static Area ra = makeArea(1); int ok = 0; Failure last;
                    for (int k = 0; k < 3; ++k) { Failure x; if (replayChild(*s, o.choices, ra, &x, watchdogSec)) { ++ok; last = x; } }
                    if (ok == 3) { fl = last; fl.idx = idx; haveFail = true; stopWorkers(pids); shrink(*s, ra, fl, shrinkT); }
                    else
                    {
                        ++flaky; flakyMsgs.push_back("case " + std::to_string(idx) + " reproduced " + std::to_string(ok) + "/3: " + o.msg);
                        a->evals++;
                        if (flaky > 20) { --alive; continue; }
                        if (idx + nw < (uint64_t)cases) { launch(w, idx + nw); lastT[w] = now(); }
                        else --alive;
                    }
                }
            }
            if (!any) usleep(2000);
        }
        for (auto p : pids) if (p > 0) { int st; waitpid(p, &st, 0); }
        // merge
        uint64_t evals = 0, nontriv = 0, leakRe = 0; std::unordered_set<uint64_t> hs; std::vector<std::pair<std::string, uint64_t>> labs; std::vector<std::string> samples;
        for (auto& a : areas)
        {
            evals += a.s->evals; nontriv += a.s->nontriv; leakRe += a.s->leakReruns;
            for (uint64_t i = 0; i < a.s->nHash; ++i) hs.insert(a.h[i]);
            for (int i = 0; i < NLAB; ++i) if (a.s->lab[i].name[0])
            {
                bool f = false; for (auto& l : labs) if (l.first == a.s->lab[i].name) { l.second += a.s->lab[i].n; f = true; }
                if (!f) labs.push_back({ a.s->lab[i].name, a.s->lab[i].n });
            }
            for (int i = 0; i < a.s->nSamples; ++i) if (samples.size() < 6 && (i == a.s->nSamples - 1 || samples.size() < 2)) samples.push_back(a.s->samples[i]);
        }
        std::sort(labs.begin(), labs.end());
        std::string j = "{";
        j += "\"section\":" + jstr(s->name) + ",\"seed\":" + std::to_string(seed) + ",\"requested\":" + std::to_string(cases) + ",\"evaluations\":" + std::to_string(evals);
        j += ",\"nontrivial\":" + std::to_string(nontriv) + ",\"distinct_nontrivial\":" + std::to_string(hs.size()) + ",\"leak_reruns\":" + std::to_string(leakRe);
        j += ",\"labels\":{"; bool c1 = false; for (auto& l : labs) { if (c1) j += ","; c1 = true; j += jstr(l.first) + ":" + std::to_string(l.second); } j += "}";
        j += ",\"samples\":["; c1 = false; for (auto& x : samples) { if (c1) j += ","; c1 = true; j += jstr(x); } j += "]";
        j += ",\"flaky\":["; c1 = false; for (auto& x : flakyMsgs) { if (c1) j += ","; c1 = true; j += jstr(x); } j += "]";
        char b[64]; snprintf(b, 64, "%.2f", now() - t0); j += std::string(",\"wall_s\":") + b;
        if (haveFail)
        {
            j += ",\"failure\":{\"case\":" + std::to_string(fl.idx) + ",\"message\":" + jstr(fl.msg) + ",\"story\":" + jstr(fl.note) + ",\"log\":" + jstr(fl.log) + ",\"choices\":[";
            c1 = false; for (auto v : fl.choices) { if (c1) j += ","; c1 = true; j += std::to_string(v); } j += "]}";
        }
        j += "}";
        if (out.empty()) printf("%s\n", j.c_str()); else { FILE* f = fopen(out.c_str(), "w"); if (!f) { perror("out"); return 2; } fputs(j.c_str(), f); fclose(f); }
        cleanup(nw);
        return haveFail ? 1 : 0;
    }
}

int main(int argc, char** argv) { return pbt::runMain(argc, argv); }
