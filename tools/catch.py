#!/usr/bin/env python3
"""Apply each planted bug in /repo, run the check of its property (and others named with --also), undo. catch.py [--also C28,C36] [--all] [ID...]"""
import os, sys, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
also = []
if "--also" in args:
    i = args.index("--also"); also = args[i + 1].split(","); del args[i:i + 2]
ids = args or sorted(os.listdir(V + "/seeded"))
for b in ids:
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    if subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{b}/patch.diff"]).returncode:
        print(b, "does not apply"); continue
    try:
        for p in [m["property"]] + also:
            r = subprocess.run([sys.executable, V + "/check.py", p, "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            hit = f"VIOLATION property={p} " in r.stdout
            v = [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]
            print(f"{b:34s} {p} {'CAUGHT' if r.returncode == 1 and hit else 'missed rc=%d' % r.returncode} {v[0].strip()[:110] if v else ''}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
