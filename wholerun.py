"""Custom runners of the whole-interface checks (C28, C29, C31, C33)."""
import atexit, os, re, tempfile, time, json, shutil
from concurrent.futures import ThreadPoolExecutor
import vlib, gen_api

NOSW = "ZCM_DISABLE_SWIZZLE"


def table(res, pool):
    """Table sources for the current tree; records what could not be turned into a callable entry."""
    lib, log = vlib.build_lib("rel-O2", pool)
    if not lib:
        lib, log = vlib.build_lib("dbg-asan", pool)
    if not lib:
        raise vlib.CheckError("the library does not build: " + log)
    src, ents, undefined, skipped = gen_api.generate(os.path.join(vlib.VERIF, "build", "gen", "api-%s" % vlib.tree_hash()[:16]), lib)
    res.extra["entries"] = len(ents)
    res.extra["declared_but_undefined"] = [f.sig() for f in undefined]
    res.extra["not_callable_by_the_table"] = [f.sig() for f in skipped]
    if len(ents) < 1500:
        raise vlib.CheckError("only %d callable entries found" % len(ents))
    return src + [os.path.join(vlib.HARN, "whole.cpp")]


def jobs(res, src, pool, tier, mode, plan):
    """plan: (config, seeds, scale[, kwargs])"""
    with ThreadPoolExecutor(4) as outer:
        fs, built = [], {}
        for cfg, nseeds, scale, *kw in plan:
            kw = dict(kw[0]) if kw else {}
            bk = (cfg, tuple(kw.get("extra", ())), tuple(kw.get("lib_extra", ())))
            if bk not in built:
                built[bk] = outer.submit(vlib.build_exe, cfg, src, pool, kw.get("extra", ()), (), lib_extra=kw.get("lib_extra", ()))
        for f in built.values():
            f.result()
        for cfg, nseeds, scale, *kw in plan:
            kw = dict(kw[0]) if kw else {}
            base = res.seed if tier == "quick" else res.seed * 1000
            for i in range(nseeds):
                fs.append(outer.submit(vlib.run_monitor, res, cfg, src, pool, [base + i], scale, tier, kw.get("extra", ()), (), kw.get("timeout", 420), ("--mode", mode), kw.get("lib_extra", ()), None, kw.get("env"), kw.get("wrap", ())))
        for f in fs:
            f.result()


def hunt(res, src, pool, tier, cfgs=("guided", "guided-rel")):
    """Cases reaching rarely taken branches, found by the comparison-guided search in a debug and a release build; every build of
    the monitor then runs them too (ZCM_HUNTED names the file)."""
    path = os.path.join(vlib.VERIF, "build", "hunted-%s-%d" % (res.prop, os.getpid()))
    stats = {}

    def one(cfg):
        exe, err = vlib.build_exe(cfg, src, pool, vlib.GUIDED[0], (), lib_extra=vlib.GUIDED[1])
        if not exe:
            return cfg, None, ""
        p = "%s-%s" % (path, cfg)
        r = vlib.run_exe([exe, "--seed", str(res.seed), "--scale", "12" if tier == "quick" else "60", "--mode", "hunt", "--out", p], 120 if tier == "quick" else 1200)
        text = open(p, errors="replace").read() if os.path.exists(p) else ""
        if os.path.exists(p):
            os.unlink(p)
        d = [json.loads(l) for l in (r.stdout if r else "").splitlines() if l.startswith('{"evals"')]
        return cfg, (d[-1]["guided"] if d else "stopped"), text
    with ThreadPoolExecutor(2) as outer:
        text = ""
        for cfg, st, t in outer.map(one, cfgs):
            text += t
            stats[cfg] = st
    stats["cases kept"] = text.count("\n")
    res.extra["guided search"] = stats
    by = {}
    for l in text.splitlines(True):
        by.setdefault(l.split("\t")[0], []).append(l)
    with open(path, "w") as f:
        f.write("".join("".join(v) for v in by.values()))
    os.environ["ZCM_HUNTED"] = path
    atexit.register(lambda: os.path.exists(path) and os.unlink(path))


CASTKW = {"extra": ("-fsanitize=float-cast-overflow",), "lib_extra": ("-fsanitize=float-cast-overflow",)}
MSANKW = {"extra": ("-D_GLIBCXX_EXTERN_TEMPLATE=0",), "env": {"MSAN_OPTIONS": "halt_on_error=1:poison_in_malloc=0:poison_in_free=0"}}


def run_c28(res, spec, pool, tier):
    src = table(res, pool)
    hunt(res, src, pool, tier)
    if tier == "quick":
        plan = [("dbg-asan", 1, 3.0, CASTKW), ("dbg-clang-san", 1, 3.0), ("msan", 1, 2.0, MSANKW), ("rel-O2", 1, 8.0)]
    else:
        plan = [("dbg-asan", 4, 10.0), ("dbg-clang-san", 4, 10.0), ("rel-asan", 4, 10.0), ("msan", 3, 8.0, MSANKW), ("msan-rel", 3, 8.0, MSANKW), ("rel-O2", 6, 12.0), ("rel-O3", 2, 12.0),
                ("vg", 1, 0.05, {"wrap": ("valgrind", "-q", "--error-exitcode=77", "--track-origins=no"), "timeout": 800})]
    jobs(res, src, pool, tier, "mem", plan)
    # results must not depend on what uninitialised variables happen to hold
    compare(res, src, pool, ["init-pattern", "init-zero"], 1.0 if tier == "quick" else 40.0, [res.seed], "depends-on-uninitialised")


def run_c29(res, spec, pool, tier):
    src = table(res, pool)
    hunt(res, src, pool, tier)
    plan = [("rel-O2", 1, 8.0), ("dbg-O0", 1, 3.0)] if tier == "quick" else [("rel-O2", 6, 10.0), ("rel-O3", 2, 5.0), ("rel-clang", 3, 5.0), ("dbg-O0", 3, 3.0), ("dbg-asan", 1, 1.0)]
    jobs(res, src, pool, tier, "pure", plan)


def run_c33(res, spec, pool, tier):
    src = table(res, pool)
    hunt(res, src, pool, tier)
    plan = [("tsan", 1, 4.0), ("tsan-O0", 1, 1.0), ("rel-O2", 1, 20.0)] if tier == "quick" else [("tsan", 6, 6.0), ("tsan-O0", 2, 4.0), ("tsan-clang", 6, 6.0), ("rel-O2", 8, 30.0), ("dbg-O0", 4, 10.0), ("rel-clang", 3, 30.0)]
    jobs(res, src, pool, tier, "threads", plan)


def digest(cfg, src, pool, seed, scale, only=None, extra=(), lib_extra=()):
    exe, err = vlib.build_exe(cfg, src, pool, extra, lib_extra=lib_extra)
    if not exe:
        return None, err
    d = tempfile.mkdtemp(prefix="dig-")
    try:
        cmd = [exe, "--seed", str(seed), "--scale", str(scale), "--mode", "digest", "--out", d + "/o"] + (["--only", only] if only else [])
        r = vlib.run_exe(cmd)
        if r is None or r.returncode:
            return None, ("run", "%s: %s" % (cmd, r.stderr[-3000:] if r else "no answer"))
        data = json.loads([l for l in r.stdout.splitlines() if l.startswith('{"evals"')][-1])
        return (open(d + "/o").read().splitlines(), data, cmd), None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compare(res, src, pool, cfgs, scale, seeds, key, ref=None):
    """The same calls in every configuration: the logs must be identical."""
    ref = ref or cfgs[0]
    with ThreadPoolExecutor(4) as outer:
        for seed in seeds:
            norm = [(c, (), ()) if isinstance(c, str) else c for c in cfgs]
            t = time.time()
            outs = list(outer.map(lambda c: digest(c[0], src, pool, seed, scale, None, c[1], c[2]), norm))
            logs = {}
            for c, (o, err) in zip(norm, outs):
                name = c[0] + ("+" + "".join(c[1]) if c[1] else "")
                if not o:
                    res.violation("build-or-run:%s:%s" % (name, err[0]), err[1][-3000:], config=name)
                    continue
                res.absorb(name + "/log", o[1], o[2], time.time() - t)
                logs[name] = (dict((l[17:], l[:16]) for l in o[0]), c)
            names = list(logs)
            if len(names) < 2:
                continue
            a = names[0]
            for b in names[1:]:
                common = [s for s in logs[a][0] if s in logs[b][0]]
                res.extra["entries_compared"] = max(res.extra.get("entries_compared", 0), len(common))
                bad = [s for s in common if logs[a][0][s] != logs[b][0][s]]
                for s in bad[:20]:
                    det = "results differ"
                    ca, cb = logs[a][1], logs[b][1]
                    x, _ = digest(ca[0], src, pool, seed, scale, s, ca[1], ca[2])
                    y, _ = digest(cb[0], src, pool, seed, scale, s, cb[1], cb[2])
                    if x and y:
                        for la, lb in zip(x[0], y[0]):
                            if la != lb:
                                det = "%s: %s   %s: %s" % (a, la, b, lb.split("->")[-1])
                                break
                    res.violation("%s:%s" % (key, s), det, config="%s vs %s" % (a, b), seed=seed)


def run_c31(res, spec, pool, tier):
    src = table(res, pool)
    hunt(res, src, pool, tier)
    nosw_user = ("rel-O2", ("-D" + NOSW,), ())
    if tier == "quick":
        compare(res, src, pool, ["rel-O2", "dbg-O0", "rel-clang", "rel-Os", "rel-nosw", nosw_user], 25.0, [res.seed], "differs")
    else:
        compare(res, src, pool, ["rel-O2", "dbg-O0", "rel-O3", "rel-Os", "rel-clang", "dbg-clang", "dbg-nosw", "rel-nosw", nosw_user, ("dbg-O0", ("-D" + NOSW,), ())], 40.0, [res.seed * 1000 + i for i in range(6)], "differs")
