#!/usr/bin/env python3
"""Do the planted bugs change lines of the original repository (not lines of own commits)?"""
import os, re, subprocess
BASE = "d1ae171"
def g(*a): return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True).stdout
own = {l.split()[0][:8] for l in g("rev-list", BASE + "..HEAD").split("\n") if l}
for i in sorted(os.listdir("/verif/seeded")):
    f = None; n = None
    for l in open(f"/verif/seeded/{i}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip(); blame = g("blame", "-s", "--abbrev=40", "HEAD", "--", f).split("\n")
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m[1]); continue
        if l.startswith("-") and not l.startswith("---"):
            if blame[n - 1].lstrip("^")[:8] in own: print(i, f, n, "is a line of an own commit:", l.strip())
            n += 1
        elif l.startswith(" "): n += 1
