#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/meta.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import meta
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    m = meta.META.get(i)
    if m:
        checks.append({"property": i, "quick_cmd": "bin/check.py %s --tier quick" % i, "thorough_cmd": "bin/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m["technique"], "level": m["level"], "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": meta.NOT_APPLICABLE.get(i, "no check built yet")})
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: the verified text is the repository's own source, loaded on every run."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
