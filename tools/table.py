#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md from the output of catch.sh (stdin)."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in sys.stdin:
    p = l.split()
    if len(p) >= 3:
        res.setdefault(p[0], []).append((p[1], p[2]))
rows = ["| change | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    got = [c for c, r in res.get(d, []) if r == "CAUGHT"]
    rows.append(f"| {d} | {m['needs'].replace('|', '/')} | {', '.join(got) or 'not caught'} |")
f = root + "/DESIGN.md"
s = open(f).read()
tab = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", tab)
else:
    s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: tab, s, flags=re.S)
open(f, "w").write(s)
