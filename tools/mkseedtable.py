#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    e = lambda k: m[k].replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (d.split("/")[-2], m["property"], e("needs"), e("what_it_breaks")))
p = V + "/DESIGN.md"
s = open(p).read()
a = s.index("|---|---|---|---|\n") + len("|---|---|---|---|\n")
b = s.index("\n\n", a)
s = s[:a] + "\n".join(rows) + s[b:]
s = re.sub(r"\d+ planted bugs; every one", "%d planted bugs; every one" % len(rows), s)
open(p, "w").write(s)
print(len(rows))
