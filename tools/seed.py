#!/usr/bin/env python3
"""seed.py ID...: applies each seeded change to /repo, builds, tests, runs its demo and its property's check, and undoes it.
   seed.py --clean ID...: only runs the demos on the unchanged tree (after building)."""
import json, os, subprocess, sys
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def build_test():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "BUILD FAILED " + b.stderr[-800:]
    sh("bash /opt/vp/test.sh /tmp/t.json")
    t = json.load(open("/tmp/t.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [x for x in base if x not in t["passed"]]
    return "tests fail: %s" % miss if miss else None
def demo(i): return sh(f"bash {V}/seeded/{i}/demo.sh", cwd="/repo", timeout=300)
def main():
    a = sys.argv[1:]
    clean = "--clean" in a; nocheck = "--nocheck" in a
    a = [x for x in a if not x.startswith("--")] or sorted(os.listdir(f"{V}/seeded"))
    if clean:
        e = build_test()
        if e: print(e); return 1
        for i in a:
            d = demo(i); print(i, "clean demo:", "ok" if d.returncode == 0 else "FAILS %d %s" % (d.returncode, (d.stdout + d.stderr)[-500:]), flush=True)
        return 0
    for i in a:
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == ""
        p = sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff")
        if p.returncode: print(i, "patch does not apply", p.stderr); continue
        try:
            e = build_test()
            r = [e or "builds, tests pass"]
            if not e:
                d = demo(i); r.append("demo fails as it should" if d.returncode else "DEMO PASSES WITH BUG")
                if not nocheck:
                    c = sh(f"python3 {V}/check.py {m['property']}", cwd=V)
                    hit = c.returncode == 1 and f"VIOLATION property={m['property']} " in c.stdout
                    r.append("CAUGHT" if hit else f"MISSED rc={c.returncode} {c.stderr[-300:]}")
                    r.append(c.stdout.strip().split("\n")[-1])
                    r.append("   " + c.stdout[:300].replace("\n", " "))
            print(i, m["property"], "; ".join(r), flush=True)
        finally:
            sh("git -C /repo checkout -- .")
main()
