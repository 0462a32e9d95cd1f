#!/usr/bin/env python3
"""Planting bugs in a scratch copy (made with: cp -a /repo /tmp/sr).
   seedlab.py new ID PROP NEEDS BREAKS   records /tmp/sr's uncommitted change as seeded/ID (and undoes it)
   seedlab.py run [ID...] [--nocheck]    clean demo, apply, build, stable tests, demo, check of its property, undo"""
import json, os, re, subprocess, sys
V, R = "/verif", os.environ.get("SR", "/tmp/sr")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def build():
    b = sh(f"make -C {R}/_build -j8 all && make -C {R}/_build/src/tests -j8 check TESTS=")
    return None if b.returncode == 0 else "BUILD FAILED " + b.stderr[-1500:]
def tests():
    T = f"{R}/_build/src/tests"
    sh(f"rm -f {T}/*.log {T}/*.trs")
    sh(f'make -C {T} -k check TESTS="encode-loopback serdes.test"', timeout=600)
    for t in ("encode-loopback", "serdes"):
        try: ok = re.search(r"^:test-result: PASS", open(f"{T}/{t}.trs").read(), re.M)
        except OSError: ok = None
        if not ok: return t + " fails"
def demo(i):
    d = f"{V}/seeded/{i}"; t = sh("mktemp -d").stdout.strip()
    sh(f"cp {d}/* {t}/; rm -f {t}/*.diff {t}/meta.json; sed -i 's|/repo\\b|{R}|g' {t}/demo.sh")
    try: r = sh(f"bash {t}/demo.sh", cwd=R, timeout=300)
    except subprocess.TimeoutExpired: r = subprocess.CompletedProcess("", 124, "", "timeout")
    sh(f"rm -rf {t}"); return r
def main():
    a = sys.argv[1:]
    if a[0] == "new":
        i, prop, needs, breaks = a[1:5]; d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
        p = sh(f"git -C {R} diff").stdout
        if not p: print("no change"); return 1
        open(d + "/patch.diff", "w").write(p); json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        sh(f"git -C {R} checkout -- ."); return 0
    nocheck = "--nocheck" in a; ids = [x for x in a[1:] if x[0] != "-"] or sorted(os.listdir(V + "/seeded"))
    assert not sh(f"git -C {R} status --porcelain --untracked-files=no").stdout
    e = build()
    if e: print(e); return 1
    clean = {i: demo(i) for i in ids}
    for i in ids:
        m = json.load(open(f"{V}/seeded/{i}/meta.json")); r = []
        c = clean[i]; r.append("clean demo ok" if c.returncode == 0 else "CLEAN DEMO FAILS %d %s" % (c.returncode, (c.stdout + c.stderr)[-700:]))
        p = sh(f"git -C {R} apply {V}/seeded/{i}/patch.diff")
        if p.returncode: print(i, "patch does not apply", p.stderr); continue
        try:
            e = build() or tests(); r.append(e or "builds, tests pass")
            if not e:
                d = demo(i); r.append(f"demo fails ({d.returncode})" if d.returncode else "DEMO PASSES WITH BUG")
                if not nocheck:
                    c = sh(f"python3 {V}/check.py {m['property']}", cwd=V, env=dict(os.environ, VERIF_REPO=R))
                    r.append("CAUGHT" if c.returncode == 1 and f"VIOLATION property={m['property']} " in c.stdout else f"MISSED rc={c.returncode} {c.stderr[-500:]}")
                    r.append(c.stdout.strip().split("\n")[-1]); r.append("\n      " + c.stdout[:260].replace("\n", " "))
        finally: sh(f"git -C {R} checkout -- .")
        print(i, m["property"], "; ".join(r), flush=True)
sys.exit(main())
