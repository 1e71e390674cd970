#!/usr/bin/env python3
"""Confirm planted bugs and write them to seeded/. Usage: plant.py DEFS.py [ID...]

DEFS.py defines B: list of dict(id, prop, needs, breaks, edits=[(file, old, new)...], demo=C++ source or files={name: text})."""
import os, sys, json, shutil, subprocess, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/plant/repo"
DEMO = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -I include "$d/demo.cpp" _build/libzcm.a -o "$t/demo" -lpthread || exit 3
timeout 120 "$t/demo"
"""
base = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd=None, t=600):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
    return p.returncode, p.stdout


def stable():
    b = base
    for k in ("passed", "stable", "tests"):
        if isinstance(b, dict) and k in b:
            return set(map(str, b[k]))
    return set(map(str, b))


def build_test():
    """Build in /repo itself (the build scripts name it)."""
    rc, o = sh("bash /opt/vp/build.sh")
    if rc:
        return False, "build: " + o[-1500:]
    rc, o = sh("bash /opt/vp/test.sh /tmp/plant/out.json")
    r = json.load(open("/tmp/plant/out.json"))
    miss = stable() - set(map(str, r["passed"]))
    return not miss, "tests failing: %s" % sorted(miss)[:5]


def main():
    defs = runpy.run_path(sys.argv[1])["B"]
    only = set(sys.argv[2:])
    assert not sh("git -C /repo status --porcelain")[1].strip(), "repo not clean"
    ok, why = build_test()
    assert ok, why
    for b in defs:
        if only and b["id"] not in only:
            continue
        d = os.path.join(V, "seeded", b["id"])
        if os.path.exists(d):
            if not only:
                continue
            shutil.rmtree(d)
        os.makedirs(d)
        good = False
        try:
            files = b.get("files") or {"demo.cpp": b["demo"]}
            for n, t in files.items():
                open(os.path.join(d, n), "w").write(t)
            if "demo.sh" not in files:
                open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            ok, why = build_test()
            assert ok, why
            rc, o = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
            if rc:
                print(b["id"], "DEMO FAILS ON UNCHANGED TREE", rc, o[-1500:]); continue
            bad = False
            for f, old, new in b["edits"]:
                p = os.path.join("/repo", f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "edit matches %d times in %s: %r" % (s.count(old), f, old[:80])); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad:
                continue
            rc, diff = sh("git -C /repo diff")
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            ok, why = build_test()
            if not ok:
                print(b["id"], "NOT KEPT:", why); continue
            rc, o = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
            if rc == 0:
                print(b["id"], "DEMO PASSES WITH THE PATCH", o[-500:]); continue
            print(b["id"], b["prop"], "ok; demo says:", rc, o.strip()[-200:])
            good = True
        finally:
            sh("git -C /repo checkout -- .")
            if not good:
                shutil.rmtree(d)
    sh("bash /opt/vp/build.sh")


main()
