#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        s = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": s.get("technique", "runtime monitoring: reference-oracle monitor over generated executions, under ASan+UBSan and in release builds"),
                       "level": s.get("level", "exploration"),
                       "level_note": s.get("note", "Executions of the real library observed by an independent oracle; coverage is what the generators reach, counted in the evidence file, not every input.")})
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 -c \"import vlib, props\"", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: everything observed is reachable through the public interface, the library's objects, or sanitizer instrumentation."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
