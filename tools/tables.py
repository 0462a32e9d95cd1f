#!/usr/bin/env python3
"""Writes the tables of DESIGN.md (between <!-- begin X --> and <!-- end X -->) from known-findings.txt, seeded/*/meta.json and tools/costs.txt."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + "/DESIGN.md"; t = open(p).read()
def put(name, lines):
    global t
    b, e = f"<!-- begin {name} -->", f"<!-- end {name} -->"; assert b in t and e in t, name
    t = t[:t.index(b) + len(b)] + "\n" + "\n".join(lines) + "\n" + t[t.index(e):]
d = ["| property | commit | what failed |", "|---|---|---|"]; n = 0
for l in open(V + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: d.append(f"| {m[1]} | {m[2]} | {m[3]} |")
put("defects", d)
s = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f)); s.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
put("seeds", s)
c = ["| property | quick | thorough |", "|---|---|---|"]
for l in open(V + "/tools/costs.txt"):
    if l.strip() and l[0] != "#": c.append("| " + " | ".join(x.strip() for x in l.split("|")) + " |")
put("costs", c)
open(p, "w").write(t)
