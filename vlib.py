"""Shared driver machinery: builds /repo's library in several instrumented configurations, runs monitors,
classifies what they saw, applies the known-findings file and writes evidence."""
import fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZCM_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, "build", "cache")
JOBS = os.cpu_count() or 8

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
DBG = ["-g1"]
REL = ["-DNDEBUG", "-DZCM_RELEASE_BUILD"]
# name -> (compiler, flags)
CONFIGS = {
    "dbg-asan":      ("g++", ["-O1"] + DBG + SAN),
    "dbg-O0":        ("g++", ["-O0"]),
    "dbg-clang-san": ("clang++", ["-O1"] + DBG + SAN),
    "rel-O2":        ("g++", ["-O2"] + REL),
    "rel-O3":        ("g++", ["-O3"] + REL),
    "rel-Os":        ("g++", ["-Os"] + REL),
    "rel-clang":     ("clang++", ["-O2"] + REL),
    "rel-asan":      ("g++", ["-O2"] + DBG + SAN + REL),
    "dbg-nosw":      ("g++", ["-O1", "-DZCM_DISABLE_SWIZZLE"]),
    "rel-nosw":      ("g++", ["-O2", "-DZCM_DISABLE_SWIZZLE"] + REL),
    "dbg-clang":     ("clang++", ["-O0"]),
    "tsan":          ("g++", ["-O1", "-g1", "-fsanitize=thread"] + REL),
    "tsan-O0":       ("g++", ["-O0", "-g1", "-fsanitize=thread"]),
    "tsan-clang":    ("clang++", ["-O1", "-g1", "-fsanitize=thread"]),
    "msan":          ("clang++", ["-O1", "-g1", "-fsanitize=memory", "-fsanitize-memory-track-origins=2", "-fno-omit-frame-pointer"]),
    "msan-rel":      ("clang++", ["-O1", "-g1", "-fsanitize=memory", "-fno-omit-frame-pointer"] + REL),
    "init-pattern":  ("g++", ["-O0", "-ftrivial-auto-var-init=pattern"] + REL),
    "init-zero":     ("g++", ["-O0", "-ftrivial-auto-var-init=zero"] + REL),
    # harness -O2, library -O0 reporting the operands of every comparison it executes (harness/guided.h)
    "guided":        ("g++", ["-O2"]),
    "guided-rel":    ("g++", ["-O2"] + REL),
    "vg":            ("g++", ["-O0", "-g"] + REL),
}


GUIDED = (("-DGUIDED",), ("-O0", "-fsanitize-coverage=trace-cmp"))


class CheckError(Exception):
    """The machinery could not reach a verdict (exit 2)."""


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)


_tree = {}


def tree_hash():
    if "h" not in _tree:
        h = hashlib.sha256()
        fl = sorted(glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/**/*", recursive=True) + glob.glob(REPO + "/tools/**/*", recursive=True))
        for f in fl:
            if os.path.isfile(f):
                h.update(os.path.relpath(f, REPO).encode() + b"\0")
                h.update(open(f, "rb").read() + b"\0")
        _tree["h"] = h.hexdigest()
    return _tree["h"]


def prune_cache(limit=6 << 30):
    try:
        ents = [(os.path.getmtime(p), p) for p in glob.glob(CACHE + "/*")]
        if len(ents) < 400:
            return
        for _, p in sorted(ents)[: len(ents) - 200]:
            shutil.rmtree(p, ignore_errors=True)
    except OSError:
        pass


def compile_one(cc, flags, src, obj, std):
    r = sh([cc, "-std=" + std, "-w", "-fPIC"] + flags + ["-I", REPO + "/include", "-I", HARN, "-c", src, "-o", obj], timeout=800)
    return (r.returncode, r.stderr)


_lock = threading.Lock()


def keyed(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode() + b"\0")
    return h.hexdigest()[:24]


def lib_sources():
    # what CMakeLists.txt builds: every source under src/
    return sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/detail/*.cpp"))


def build_lib(cfg, pool, extra=()):
    """Static library of the current tree in one configuration, keyed by the content of the tree. Returns (path, None) or (None, log)."""
    cc, flags = CONFIGS[cfg]
    flags = flags + list(extra)
    d = os.path.join(CACHE, "lib-" + keyed(tree_hash(), cc, flags, REPO))
    lib = d + "/libzcm.a"
    if os.path.exists(lib):
        os.utime(d)
        return lib, None
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
    try:
        futs = []
        for s in lib_sources():
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            # /opt/vp's own build adds stddef.h to hash.cpp; harmless everywhere
            futs.append((s, o, pool.submit(compile_one, cc, flags + ["-include", "stddef.h"], s, o, "c++14")))
        objs = []
        for s, o, f in futs:
            rc, err = f.result()
            if rc:
                return None, "%s does not compile in configuration %s:\n%s" % (s, cfg, err[:4000])
            objs.append(o)
        r = sh(["ar", "rcs", tmp + "/libzcm.a"] + objs)
        if r.returncode:
            raise CheckError("ar failed: " + r.stderr)
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, d)
        except OSError:
            pass
        return lib if os.path.exists(lib) else tmp + "/libzcm.a", None
    finally:
        if os.path.isdir(tmp) and not os.path.exists(tmp + "/libzcm.a"):
            shutil.rmtree(tmp, ignore_errors=True)


def build_exe(cfg, sources, pool, extra=(), libs=(), std="c++17", lib_extra=(), cc_tag=""):
    """Harness executable against the library of that configuration. Returns (exe, None) or (None, (stage, log))."""
    lib, log = build_lib(cfg, pool, lib_extra)
    if not lib:
        return None, ("library", log)
    cc, flags = CONFIGS[cfg]
    flags = flags + list(extra)
    hh = [open(p, "rb").read() for p in sorted(glob.glob(HARN + "/*.h")) + list(sources)]
    d = os.path.join(CACHE, "exe-" + keyed(tree_hash(), cc, flags, std, lib, hh, libs, [os.path.basename(s) for s in sources]))
    exe = d + "/run"
    if os.path.exists(exe):
        os.utime(d)
        return exe, None
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
    try:
        futs = []
        for i, s in enumerate(sources):
            o = "%s/%d.o" % (tmp, i)
            futs.append((s, o, pool.submit(compile_one, cc, flags, s, o, std)))
        for s, o, f in futs:
            rc, err = f.result()
            if rc:
                return None, ("compile", "%s: %s" % (os.path.basename(s), err[:6000]))
        r = sh([cc] + flags + [o for _, o, _ in futs] + [lib] + list(libs) + ["-o", tmp + "/run", "-lpthread"], timeout=800)
        if r.returncode:
            return None, ("link", r.stderr[-6000:])
        for _, o, _ in futs:
            os.unlink(o)
        try:
            os.rename(tmp, d)
        except OSError:
            pass
        return exe, None
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)


SANENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:second_deadlock_stack=1",
    "MSAN_OPTIONS": "halt_on_error=1",
}


def run_exe(cmd, timeout=420, env=None, cwd=None):
    e = dict(os.environ)
    e.update(SANENV)
    e["LC_ALL"] = "C"
    if env:
        e.update(env)
    for attempt in (0, 1):
        try:
            return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", env=e, cwd=cwd)
        except subprocess.TimeoutExpired:
            continue
    return None


def crash_key(r):
    """Stable description of why a monitored program died."""
    t = r.stderr
    m = re.search(r"SUMMARY: (\w+): (\S+) (\S+)", t)
    rt = re.search(r"runtime error: (.*)", t)
    fn = re.search(r"#\d+ 0x[0-9a-f]+ in (zcm::[^\n(]*)", t)
    where = fn.group(1) if fn else ""
    if rt:
        return "ub:%s:%s" % (re.sub(r"0x[0-9a-f]+|-?\d+", "N", rt.group(1))[:90], where)
    if m:
        return "%s:%s:%s" % (m.group(1), m.group(2), where)
    a = re.search(r"([\w.]+):\d+: .*Assertion `(.*)' failed", t)
    if a:
        return "assertion:%s:%s" % (a.group(1), a.group(2)[:80])
    return "died:status %d" % r.returncode


class Result:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.evals = 0
        self.distinct = 0
        self.rule = ""
        self.samples = []
        self.groups = {}
        self.runs = []
        self.viols = {}          # key -> dict(detail, config, cmd)
        self.extra = {}
        self.assumptions = []

    def violation(self, key, detail, **kw):
        if key not in self.viols:
            self.viols[key] = dict(detail=detail, **kw)

    def absorb(self, cfg, data, cmd, wall):
        with _lock:
            self._absorb(cfg, data, cmd, wall)

    def _absorb(self, cfg, data, cmd, wall):
        self.evals += data["evals"]
        # the same seeded workload runs in every configuration: distinct cases are those of the largest run
        self.distinct = max(self.distinct, data["distinct"])
        for g, n in data["groups"].items():
            self.groups[g] = self.groups.get(g, 0) + n
        for s in data.get("samples", []):
            if len(self.samples) < 12 and s not in self.samples:
                self.samples.append(s)
        for v in data["violations"]:
            self.violation(v["key"], v["detail"], config=cfg, cmd=cmd, count=v["count"])
        self.runs.append({"config": cfg, "evaluations": data["evals"], "distinct": data["distinct"], "operations": len(data["groups"]), "wall_s": round(wall, 2), **({"guided search": data["guided"]} if "guided" in data else {})})


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def conclude(res):
    """Write evidence, print verdict lines, return exit status."""
    if res.evals == 0 and not res.viols:
        raise CheckError("the monitors observed nothing")
    known = [f for f in load_known()["findings"] if f["property"] == res.prop]
    new, old = {}, {}
    for k, v in res.viols.items():
        m = next((f for f in known if f["key"] == k), None)
        (old if m else new)[k] = v
        if m:
            v["what"] = m["what"]
    cov = {
        "evaluations": res.evals,
        "distinct_nontrivial": res.distinct,
        "rule": res.rule,
        "samples": res.samples or ["(violations only)"],
        "operations_observed": len(res.groups),
        "evaluations_per_operation": dict(sorted(res.groups.items())) if len(res.groups) <= 400 else {"min": min(res.groups.values()), "max": max(res.groups.values())},
        "runs": res.runs,
        "known_findings_seen": sorted(old),
    }
    cov.update(res.extra)
    ev = {"property": res.prop, "tier": res.tier, "seed": res.seed, "level": res.level, "coverage": cov, "assumptions": res.assumptions,
          "wall_s": round(time.time() - res.t0, 2), "violations": len(new)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % res.prop, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (res.prop, old[k]["what"]))
    print("%s: %d evaluations, %d distinct, %d operations, %.1f s" % (res.prop, res.evals, res.distinct, len(res.groups), time.time() - res.t0))
    if not new:
        return 0
    os.makedirs(VERIF + "/out", exist_ok=True)
    for i, k in enumerate(sorted(new)):
        v = new[k]
        p = VERIF + "/out/%s-%02d.json" % (res.prop, i)
        with open(p, "w") as f:
            json.dump({"property": res.prop, "key": k, "seed": res.seed, "tier": res.tier, **v}, f, indent=1, default=str)
        if i < 12:
            print("VIOLATION property=%s replay=%s" % (res.prop, p))
            print("  %s: %s" % (k, (v["detail"] or "")[:600].replace("\n", " | ")))
    return 1


def run_monitor(res, cfg, sources, pool, seeds, scale, tier, extra=(), libs=(), timeout=420, args=(), lib_extra=(), label=None, env=None, wrap=()):
    """Build one monitor in one configuration and run it for each seed."""
    if cfg == "guided":
        extra, lib_extra = tuple(extra) + GUIDED[0], tuple(lib_extra) + GUIDED[1]
    exe, err = build_exe(cfg, sources, pool, extra, libs, lib_extra=lib_extra)
    if not exe:
        stage, log = err
        if stage == "library":
            if cfg in ("dbg-asan", "dbg-O0"):
                raise CheckError("the library does not build: " + log)
            res.violation("build:%s" % cfg, log, config=cfg)
        else:
            # the library builds but a program using only its public interface does not
            m = re.search(r"undefined reference to `([^']*)'", log) or re.search(r"error: (.*)", log)
            res.violation("interface:%s:%s" % (stage, m.group(1)[:120] if m else ""), log, config=cfg)
        return None
    outs = []
    for sd in seeds:
        cmd = list(wrap) + [exe, "--seed", str(sd), "--scale", str(scale), "--tier", tier] + list(args)
        t = time.time()
        r = run_exe(cmd, timeout, env)
        if r is None:
            res.violation("hang", "no answer within %d s, twice" % timeout, config=cfg, cmd=cmd)
            continue
        data = None
        for line in reversed(r.stdout.splitlines()):
            if line.startswith('{"evals"'):
                data = json.loads(line)
                break
        if r.returncode or data is None:
            if r.returncode == 99:
                raise CheckError("harness self-check failed: " + r.stderr[-2000:])
            res.violation(crash_key(r), (r.stderr[-3000:] or r.stdout[-500:]), config=cfg, cmd=cmd)
        if data:
            res.absorb(label or cfg, data, cmd, time.time() - t)
            outs.append(data)
    return outs
