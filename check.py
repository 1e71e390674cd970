#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough]   or   check.py --replay out/FILE.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from props import PROPS
from concurrent.futures import ThreadPoolExecutor


def generic(res, spec, pool, tier):
    """Run the property's monitor in each configuration of the tier, several seeds at once."""
    plan = spec[tier]
    src = [os.path.join(vlib.HARN, s) for s in spec["src"]]
    if spec.get("gen"):
        src += spec["gen"](os.path.join(vlib.VERIF, "build", "gen", res.prop))
    jobs = []
    with ThreadPoolExecutor(4) as outer:
        for cfg, nseeds, scale in plan:
            base = res.seed if tier == "quick" else res.seed * 1000
            for i in range(nseeds):
                jobs.append((cfg, scale, [base + i]))
        # build each configuration once before fanning out over seeds
        built = set()
        futs = []
        for cfg, scale, seeds in jobs:
            if cfg not in built:
                built.add(cfg)
                g = vlib.GUIDED if cfg == "guided" else ((), ())
                futs.append(outer.submit(vlib.build_exe, cfg, src, pool, tuple(spec.get("extra", ())) + g[0], spec.get("libs", ()), lib_extra=g[1]))
        for f in futs:
            f.result()
        futs = [outer.submit(vlib.run_monitor, res, cfg, src, pool, seeds, scale, tier, spec.get("extra", ()), spec.get("libs", ())) for cfg, scale, seeds in jobs]
        for f in futs:
            f.result()


def main():
    av = sys.argv[1:]
    if av and av[0] == "--replay":
        d = json.load(open(av[1]))
        print("property %s key %s\n%s" % (d["property"], d["key"], d["detail"]))
        print("re-running the check with seed %s" % d["seed"])
        os.environ["VERIF_SEED"] = str(d["seed"])
        av = [d["property"], "--tier", d["tier"]]
    prop = av[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in av:
        tier = av[av.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = PROPS[prop]
    res = vlib.Result(prop, tier, seed, "exploration")
    res.rule = spec["rule"]
    res.assumptions = spec.get("assumptions", [])
    vlib.prune_cache()
    try:
        with ThreadPoolExecutor(vlib.JOBS) as pool:
            (spec.get("runner") or generic)(res, spec, pool, tier)
        rc = vlib.conclude(res)
    except vlib.CheckError as e:
        print("ERROR %s: %s" % (prop, e), file=sys.stderr)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
