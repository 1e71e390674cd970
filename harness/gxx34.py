#!/usr/bin/env python3
"""Stands in for g++ when a generated build script runs: compiles the named sources in parallel with the script's own options, adds the
call counter, links into a scratch file, and reports the command line."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
av = sys.argv[1:]
scratch = os.environ["GXX_SCRATCH"]
src = [a for a in av if a.endswith(".cpp")]
rest, out = [], None
it = iter(av)
for a in it:
    if a == "-o":
        out = next(it, None)
    elif a not in src:
        rest.append(a)
# keep the order of the -L / -l options as given
link, k = [], 0
while k < len(rest):
    if rest[k] == "-L" and k + 1 < len(rest):
        link += rest[k:k + 2]
        k += 2
        continue
    if rest[k].startswith(("-l", "-L")):
        link.append(rest[k])
    k += 1
comp = [a for a in rest if a not in link]
inst = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=zcm/,glm/,/usr/"]


def one(s):
    o = os.path.join(scratch, os.path.basename(s) + ".o")
    r = subprocess.run(["/usr/bin/g++"] + comp + inst + ["-w", "-O0", "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return s, o, r.returncode, r.stderr[-1500:]


with ThreadPoolExecutor(int(os.environ.get("GXX_JOBS", "8"))) as p:
    rs = list(p.map(one, src))
rep = {"sources": src, "options": rest, "output": out, "errors": [(s, e) for s, o, rc, e in rs if rc], "objects": [o for s, o, rc, e in rs]}
rc = 1 if rep["errors"] else 0
if not rc:
    r = subprocess.run(["/usr/bin/g++"] + comp + [o for s, o, c, e in rs] + [os.environ["GXX_COUNTER"]] + link + ["-o", scratch + "/prog"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    rc = r.returncode
    if rc:
        rep["errors"].append(("link", r.stderr[-1500:]))
json.dump(rep, open(scratch + "/report.json", "w"))
for s, e in rep["errors"][:3]:
    sys.stderr.write("%s: %s\n" % (s, e))
sys.exit(rc)
