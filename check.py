#!/usr/bin/env python3
"""Driver: builds the checks of one property from /repo's working tree, runs them, writes evidence.

  check.py C10                 run (VERIF_SEED, VERIF_TIER from the environment)
  check.py [C10] --replay FILE re-run a saved failing case
  check.py --setup             build the engine objects
"""
import sys, os, re, json, hashlib, subprocess, time, glob, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
from props import PROPS

WARN = "-w"
BASE = ["-std=c++20", "-g1", WARN, "-pthread", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (config, flags for code under test, flags for engine)
    "asan_own": ("own", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=null,alignment,vptr", "-DPBT_ASAN"], ["-O2", "-DPBT_ASAN"]),
    "asan_std": ("std", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=null,alignment,vptr", "-DPBT_ASAN", "-DNDEBUG"], ["-O2", "-DPBT_ASAN"]),
    "tsan_own": ("own", ["-O1", "-fsanitize=thread", "-DPBT_TSAN"], ["-O2", "-DPBT_TSAN"]),
    "rel_std": ("std", ["-O2", "-DNDEBUG"], ["-O2"]),
    "rel_own": ("own", ["-O2"], ["-O2"]),
    "rel_clang": ("own", ["-O2"], ["-O2"]),
}
LINK = {"asan_own": ["-fsanitize=address,undefined", "-fno-sanitize=null,alignment,vptr"], "asan_std": ["-fsanitize=address,undefined", "-fno-sanitize=null,alignment,vptr"], "tsan_own": ["-fsanitize=thread"], "rel_std": [], "rel_own": [], "rel_clang": []}

def config_h(cfg):
    src = open(os.path.join(REPO, "macoro/config.h.in")).read()
    defs = {"MACORO_CPP_20": "ON"}
    if cfg == "std": defs["MACORO_HAS_STD_STOP_TOKEN"] = "ON"
    def sub(m):
        n = m.group(1)
        return "#define %s %s" % (n, defs[n]) if n in defs else "/* #undef %s */" % n
    return re.sub(r"(?m)^#cmakedefine\s+(\w+).*$", sub, src)

def tree_files():
    r = []
    for d, ds, fs in os.walk(os.path.join(REPO, "macoro")):
        ds.sort()
        r += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".h", ".cpp", ".in", ".hpp", ".inl", ".ipp"))]
    return r

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:20]

def run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout

class BuildError(Exception): pass
class UseError(BuildError):
    """A use of the library in a check program is rejected by the compiler."""
    def __init__(self, source, variant, text): BuildError.__init__(self, text); self.source = source; self.variant = variant

def cc(cmd, out):
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    rc, o = run(cmd + ["-o", tmp])
    if rc: raise BuildError("command failed: %s\n%s" % (" ".join(cmd), o[:6000]))
    os.replace(tmp, out)

import threading
PLOCK = threading.Lock()
def prepare(cfg):
    with PLOCK: return prepare_(cfg)
def prepare_(cfg):
    d = os.path.join(BUILD, "inc_" + cfg, digest(tree_files()))
    os.makedirs(d + "/macoro", exist_ok=True)
    def put(p, s):
        if not os.path.exists(p) or open(p).read() != s:
            open(p + ".tmp%d" % os.getpid(), "w").write(s); os.replace(p + ".tmp%d" % os.getpid(), p)
    put(d + "/macoro/config.h", config_h(cfg))
    srcs = [f for f in tree_files() if f.endswith(".cpp") and not re.search(r"win32" + (r"|/stop_\w+\.cpp$" if cfg == "std" else ""), f)]
    put(d + "/all_macoro_src.inc", "".join('#include "%s"\n' % s for s in srcs))
    return d

def engine_obj(variant, name):
    src = os.path.join(ROOT, "lib", name + ".cpp")
    hs = sorted(glob.glob(os.path.join(ROOT, "lib", "*.h")))
    out = os.path.join(BUILD, "eng_%s_%s_%s.o" % (variant, name, digest([src] + hs, str(VARIANTS[variant][2]))))
    if not os.path.exists(out):
        cc(["g++"] + BASE + VARIANTS[variant][2] + ["-I", os.path.join(ROOT, "lib"), "-c", src], out)
    return out

def build(source, variant, defs=()):
    """Returns the path of the check binary for this tree."""
    os.makedirs(BUILD, exist_ok=True)
    cfg, flags, _ = VARIANTS[variant]
    hs = sorted(glob.glob(os.path.join(ROOT, "lib", "*.*")) + glob.glob(os.path.join(ROOT, "checks", "*.h")))
    src = os.path.join(ROOT, "checks", source)
    key = digest([src] + hs + tree_files(), REPO + str(flags) + str(LINK[variant]) + str(defs) + config_h(cfg))
    base = os.path.join(BUILD, "%s_%s_%s" % (source.replace(".cpp", ""), variant, key))
    eng = [engine_obj(variant, "pbt"), engine_obj(variant, "vsched")]
    if not os.path.exists(base):
        inc = prepare(cfg)
        for old in glob.glob(os.path.join(BUILD, "%s_%s_*" % (source.replace(".cpp", ""), variant))):
            if time.time() - os.path.getmtime(old) > 3600: 
                try: os.unlink(old)
                except OSError: pass
        extra = ["-D" + d for d in defs]
        cmd = ["clang++" if variant == "rel_clang" else "g++"] + BASE + flags + extra + ["-I", inc, "-I", REPO, "-I", os.path.join(ROOT, "lib"), src] + eng + LINK[variant]
        try: cc(cmd, base)
        except BuildError as e:
            if not rejected(str(e)): cc(cmd, base)  # the compiler itself failed: once more
            else: raise UseError(source, variant, str(e))
    return base

def rejected(text): return ": error: " in text and "internal compiler error" not in text and "Killed" not in text

def library_builds(variant):
    """Whether the library by itself compiles: every header the checks use and its sources, nothing instantiated."""
    inc = prepare(VARIANTS[variant][0])
    heads = sorted(f for f in os.listdir(os.path.join(REPO, "macoro")) if f.endswith(".h") and f not in ("blocking.h", "macros_undef.h"))
    src = os.path.join(BUILD, "probe_%s_%d.cpp" % (variant, os.getpid()))
    open(src, "w").write("".join('#include "macoro/%s"\n' % h for h in heads) + '#include "all_macoro_src.inc"\n')
    try: rc, o = run(["g++"] + BASE + VARIANTS[variant][1] + ["-I", inc, "-I", REPO, "-fsyntax-only", src])
    finally: os.unlink(src)
    return rc == 0

def shim_to_blame(e):
    """Whether the check program compiles once the standard concurrency names are not redirected: the redirection lacks something, the library is fine."""
    cfg, flags, _ = VARIANTS[e.variant]
    inc = prepare(cfg)
    rc, o = run(["g++"] + BASE + flags + ["-DVS_REAL_NAMES", "-I", inc, "-I", REPO, "-I", os.path.join(ROOT, "lib"), "-fsyntax-only", os.path.join(ROOT, "checks", e.source)])
    return rc == 0

def try_build(source, variant):
    """The clang build is an addition: a tree only g++ accepts is still checked by the other builds."""
    try: return build(source, variant)
    except BuildError as e:
        if variant != "rel_clang": raise
        print("note: not built with clang: %s" % str(e)[:300]); return None

def known_findings():
    """known-findings.txt: 'finding: property=Cxx section=NAME <text>' and 'fixed: property=...' lines."""
    r = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\w+)\s+section=(\w+)\s+source=(\S+)\s+(.*)$", l.strip())
            if m: r.append({"property": m.group(1), "section": m.group(2), "source": m.group(3), "text": m.group(4)})
    return r

def run_section(binary, section, seed, tier, workers, scale, tlimit, outdir):
    out = os.path.join(outdir, "%s_%s_%d.json" % (os.path.basename(binary), section, seed))
    cmd = [binary, "--section", section, "--seed", str(seed), "--tier", tier, "--workers", str(workers), "--scale", str(scale), "--time", str(tlimit), "--out", out]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tlimit + 400)
    except subprocess.TimeoutExpired:
        raise BuildError("section %s did not end" % section)
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise BuildError("section %s ended with %d: %s" % (section, p.returncode, p.stdout[:2000]))
    return json.load(open(out))

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda x: engine_obj(*x), [(v, n) for v in VARIANTS for n in ("pbt", "vsched")]))
        print("engine built"); return 0
    if "--replay" in a: return replay(a[a.index("--replay") + 1])
    prop = a[0]
    only = a[1:] 
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    cfg = PROPS[prop]
    t0 = time.time()
    outdir = os.path.join(BUILD, "out_%s_%d" % (prop, os.getpid())); os.makedirs(outdir, exist_ok=True)
    try:
        return check(prop, cfg, tier, seed, outdir, t0, only)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)

def check(prop, cfg, tier, seed, outdir, t0, only):
    ncpu = os.cpu_count() or 4
    jobs = []  # (source, variant, section regex, scale)
    for j in cfg["jobs"]:
        src, variants, rx = j[0], j[1], j[2] if len(j) > 2 else ".*"
        scale = j[3] if len(j) > 3 else 1.0
        for v in variants: jobs.append((src, v, rx, scale))
    uniq = sorted({(s, v) for s, v, _, _ in jobs})
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            bins = dict(zip(uniq, ex.map(lambda x: try_build(*x), uniq)))
    except UseError as e:
        if not library_builds(e.variant) or shim_to_blame(e): raise
        return unusable(prop, e, tier, seed, t0)
    tb = time.time() - t0
    budget = 420 if tier == "quick" else 3000   # safety cap; reaching it only reduces the number of cases
    kf = [k for k in known_findings() if k["property"] == prop]
    kfsec = {k["section"] for k in kf}
    results = []; viol = None
    todo = []
    for (src, v, rx, scale) in jobs:
        if bins[(src, v)] is None: continue
        for l in subprocess.run([bins[(src, v)], "--list"], stdout=subprocess.PIPE, text=True, check=True).stdout.split("\n"):
            if not l: continue
            name = l.split()[0]
            if re.fullmatch(rx, name) and not name.startswith("known_") and (not only or name in only): todo.append((src, v, name, scale))
    for (src, v, name, scale) in todo:
        left = budget - (time.time() - t0)
        r = run_section(bins[(src, v)], name, seed, tier, ncpu, scale, max(5, left), outdir)
        r["source"] = src; r["variant"] = v
        results.append(r)
        if os.environ.get("PBT_VERBOSE"): print("  %s/%s/%s: %d cases, %d distinct nontrivial, %.1fs %s" % (src, v, name, r["evaluations"], r["distinct_nontrivial"], r["wall_s"], json.dumps(r["labels"])))
        if r["flaky"]: print("note: %s/%s: unreproducible failures (not reported): %s" % (v, name, r["flaky"][:3]))
        if "failure" in r: viol = (r, src, v); break
    found = []
    # known findings: each has its own section, which exhibits exactly that defect
    if not viol:
        for k in kf:
            for v in ("asan_own",):
                b = build(k["source"], v)
                r = run_section(b, k["section"], seed, tier, 2, 1, 120, outdir)
                if "failure" in r:
                    found.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
                else:
                    print("note: known finding no longer reproduces: %s" % k["text"])
    ev = sum(r["evaluations"] for r in results); dn = sum(r["distinct_nontrivial"] for r in results)
    samples = []
    for r in results:
        for s in r["samples"][:2]: samples.append("[%s %s]\n%s" % (r["variant"], r["section"], s[:1800]))
    doc = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
           "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": cfg["rule"], "samples": samples[:12] or ["(no non-trivial case)"],
                        "sections": [{"source": r["source"], "variant": r["variant"], "section": r["section"], "evaluations": r["evaluations"], "requested": r["requested"], "nontrivial": r["nontrivial"],
                                      "distinct_nontrivial": r["distinct_nontrivial"], "labels": r["labels"], "unreproducible": len(r["flaky"]), "wall_s": r["wall_s"]} for r in results],
                        "known_findings_reproduced": len(found), "build_s": round(tb, 1)},
           "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    if not only: # a run of chosen sections is not the property's evidence
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(doc, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if viol:
        r, src, v = viol; f = r["failure"]
        rd = os.path.join(ROOT, "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s_%s_%s.json" % (prop, v, r["section"]))
        json.dump({"property": prop, "source": src, "variant": v, "section": r["section"], "seed": seed, "case": f["case"], "message": f["message"],
                   "story": f["story"].split("\n"), "log": f["log"].split("\n")[:160], "choices": f["choices"]}, open(path, "w"), indent=1)
        print("%s/%s: %s" % (v, r["section"], f["message"]))
        print(f["story"][:4000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (prop, ev, dn, time.time() - t0))
    return 0

def unusable(prop, e, tier, seed, t0):
    """The library compiles but a supported use of it (one the unchanged tree accepts) no longer does."""
    first = next((l for l in str(e).split("\n") if ": error: " in l), "")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True); rd = os.path.join(ROOT, "replays"); os.makedirs(rd, exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": PROPS[prop]["rule"], "samples": ["(a supported use does not compile)"]},
               "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": 1}, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    path = os.path.join(rd, "%s_%s_compile.json" % (prop, e.variant))
    json.dump({"property": prop, "source": e.source, "variant": e.variant, "compile": True, "message": str(e).split("\n")[:60]}, open(path, "w"), indent=1)
    print("%s/%s: the library compiles but a supported use of it does not: %s" % (e.variant, e.source, first)); print(str(e)[:3000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1

def replay(path):
    d = json.load(open(path))
    if d.get("compile"):
        try: build(d["source"], d["variant"])
        except UseError as e:
            print(str(e)[:3000]); print("VIOLATION property=%s replay=%s" % (d["property"], path)); return 1
        return 0
    b = build(d["source"], d["variant"])
    t = os.path.join(BUILD, "replay_%d.txt" % os.getpid())
    open(t, "w").write(" ".join(map(str, d["choices"])))
    rc = subprocess.run([b, "--section", d["section"], "--replay", t]).returncode
    os.unlink(t)
    if rc == 1: print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return rc

if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("ERROR: %s" % e); sys.exit(2)
