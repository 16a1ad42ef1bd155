#!/usr/bin/env python3
"""Rewrite the cost table of DESIGN.md from the evidence of a run (evidence/*.json).

Refuses evidence of runs that found a violation: those stop early, so their figures say nothing."""
import glob, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/evidence/C*.json")):
    d = json.load(open(f))
    if d["violations"] or d["tier"] != "quick":
        sys.exit(f"{f}: not a quiet quick run")
    c = d["coverage"]
    rows.append(f"| {d['property']} | {c['evaluations']:,} | {c['distinct_nontrivial']:,} | {d['wall_s']:.0f} s |")
t = open(root + "/DESIGN.md").read()
a, b = "<!-- costs -->\n", "<!-- end of costs -->"
i, j = t.index(a) + len(a), t.index(b)
head = "| check | cases | distinct non-trivial | time |\n|---|---:|---:|---:|\n"
open(root + "/DESIGN.md", "w").write(t[:i] + head + "\n".join(rows) + "\n" + t[j:])
