#!/usr/bin/env python3
"""DESIGN.md from tools/design_template.md, vlib/how.py, known_findings.txt and seeded/."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vlib")
from how import HOW
from meta import META
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
props = "\n".join("* **%s** %s *(level: %s)*. %s" % (p["id"], p["title"], META[p["id"]]["level"], HOW[p["id"]]) for p in P)
defects = "\n".join("* " + l.strip() for l in open(V + "/known_findings.txt") if l.strip() and not l.startswith("#"))
caught = {}
try:
    caught = json.load(open(V + "/tools/caught.json"))
except OSError:
    pass
rows = ["| bug | property | needs | check that catches it |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], caught.get(d, m["property"])))
t = open(V + "/tools/design_template.md").read()
for k, v in (("PROPS", props), ("DEFECTS", defects), ("SEEDS", "\n".join(rows))):
    t = t.replace("@@%s@@" % k, v)
open(V + "/DESIGN.md", "w").write(t)
