#!/usr/bin/env python3
"""Mutants of single lines, against the checks that should notice (a campaign to find blind spots; not part of any check).
   mutate.py FILE:CHECK,CHECK..:N ...   takes about N mutants, evenly spaced, of src/FILE in the scratch copy $SR (default /tmp/sr);
   runs the checks of the copy of /verif in $VM (default /tmp/vm) until one notices; survivors go to $OUT (default /tmp/mut.txt)"""
import os, re, subprocess, sys, time
R = os.environ.get("SR", "/tmp/sr"); VM = os.environ.get("VM", "/tmp/vm"); OUT = os.environ.get("OUT", "/tmp/mut.txt")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
OPS = [(r"(?<![<>=!-])<(?![<=])(?= )", "<="), (r"(?<![<>=!-])>(?![>=])(?= )", ">="), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\+ 1\b", "+ 2"), (r"- 1\b", "- 2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r">> ", "<< "), (r"<< (?!\")", ">> "), (r"\+=", "-="), (r"\|=", "="), (r"\bgolden\b", "alternative"), (r"\bcolumn\b", "row"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b([2-9]|[1-9][0-9]+)\b", lambda m: str(int(m[0]) + 1)),
       (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bbegin\(\)", "end()"), (r"\bwidth\b", "height"), (r"\breturn ResultType::Continue;", ";")]
def mutants(f):
    L = open(f).read().split("\n"); o = []; incomment = False; start = 28
    for n, l in enumerate(L):
        s = l.strip()
        if n < start or not s or s.startswith(("//", "#", "*", "using ", "template")) or "cerr" in s or "assert" in s or "throw" in s: continue
        if s.startswith("/*"):
            incomment = "*/" not in s; continue
        if incomment:
            incomment = "*/" not in s; continue
        for p, r in OPS:
            for m in list(re.finditer(p, l))[:2]:
                if "template" in l or ( "static_cast<" in l and p[-3:] == " )" and 0 ): continue
                new = l[:m.start()] + (r(m) if callable(r) else r) + l[m.end():]
                if new != l: o.append((n, new))
        if s.endswith(";") and not s.startswith(("return", "const ", "}", "break", "case", "auto ", "uint", "int ", "size_t", "bool ", "double", "static", "vector", "Optional", "unsigned")) and ("(" in s or "=" in s) and s.count("(") == s.count(")"): o.append((n, ""))
        if s == "break;": o.append((n, ""))
    return L, o
out = open(OUT, "a")
def log(*a): print(*a, file=out, flush=True)
for spec in sys.argv[1:]:
    f, checks, n = spec.split(":"); n = int(n); path = f"{R}/src/{f}"; L, ms = mutants(path); orig = open(path).read()
    step = max(1, len(ms) // n); chosen = ms[step // 2::step][:n] if len(ms) > n else ms; st = dict(caught=0, stillborn=0, survived=0, tests=0)
    for line, new in chosen:
        t = time.time(); M = L[:]; M[line] = new
        try:
            open(path, "w").write("\n".join(M)); verdict = "SURVIVED"; who = ""
            for c in checks.split(","):
                r = sh(f"timeout 900 python3 {VM}/check.py {c}", cwd=VM, env=dict(os.environ, VERIF_REPO=R))
                if r.returncode == 1 and "VIOLATION" in r.stdout: verdict = "caught"; who = c; break
                if "error:" in r.stdout + r.stderr or "undefined reference" in r.stdout + r.stderr: verdict = "stillborn"; break
                if r.returncode: verdict = "ODD"; who = c + " rc=%d " % r.returncode + (r.stdout + r.stderr)[-300:]; break
            if verdict in ("SURVIVED", "ODD"):
                b = sh(f"make -C {R}/_build -j8 all && make -C {R}/_build/src/tests -j8 check TESTS=")
                if b.returncode: verdict = "stillborn"
                else:
                    T = f"{R}/_build/src/tests"; sh(f"rm -f {T}/*.log {T}/*.trs"); sh(f'timeout 100 make -C {T} -k check TESTS="encode-loopback serdes.test"')
                    for x in ("encode-loopback", "serdes"):
                        if not os.path.exists(f"{T}/{x}.trs") or ":test-result: PASS" not in open(f"{T}/{x}.trs").read(): verdict = "tests"
        finally: open(path, "w").write(orig)
        st[verdict if verdict in st else "survived"] = st.get(verdict if verdict in st else "survived", 0) + 1
        if verdict in ("SURVIVED", "ODD"): log(f"{verdict} {f}:{line+1} {who}\n   - {L[line].strip()}\n   + {new.strip()}")
        else: log(f"  {verdict} {who} {f}:{line+1} {int(time.time()-t)}s | {new.strip()[:100]}")
    log(f"== {f}: {st} of {len(ms)} possible")
