#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  decides one property on /repo's working tree
   check.py --setup                           builds everything once (fills /verif/.build)
   check.py --replay FILE                     re-runs one execution that was reported

exit 0: the property held on everything explored; 1: VIOLATION line; 2: the check could not run."""
import json, os, re, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vbuild
import registry

def known_findings():
    """known-findings.txt: 'finding: property=<id> match=<text> :: <what fails>' suppresses exactly the executions
    whose report contains <text>; 'fixed:' lines suppress nothing."""
    r = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l)
            if m:
                r.append(m.groups())
    return r

def build(run):
    b = vbuild.Builder(run.get("variant", "opt"))
    srcs = [s if isinstance(s, str) else (s[0], tuple(s[1])) for s in run["srcs"]]
    absp = lambda s: s if os.path.isabs(s) else os.path.join(HERE if s.startswith("harness/") else vbuild.REPO, s)
    srcs = [absp(s) if isinstance(s, str) else (absp(s[0]), tuple(e.replace("@VERIF@", HERE).replace("@REPO@", vbuild.REPO) for e in s[1])) for s in srcs]
    prog = lambda extra: b.program(run["prog"], srcs, libs=run.get("libs", ("decoder", "encoder", "util")),
                                   ldextra=run.get("ld", ()), extra=extra)
    if run.get("optional"):
        # parts of a harness that reach for internals of the code: left out when these have been reorganised
        try:
            return prog(tuple(run["optional"]))
        except vbuild.BuildError:
            pass
    return prog(())

def digest_args(run, prop, work):
    """two runs of one program built differently: the first writes the digest of every execution, the second compares"""
    if "digests" not in run:
        return []
    p = os.path.join(work, f"{prop}-{run['prog']}-{os.getpid()}.digests")
    if run["digests"] == "out" and os.path.exists(p):
        os.unlink(p)
    return ["--digests-" + run["digests"], p]

def drop_digests(chk, prop, work):
    for r in chk["runs"]:
        a = digest_args(dict(r, digests="in") if "digests" in r else r, prop, work)
        if a and os.path.exists(a[1]):
            os.unlink(a[1])

def env_for(run):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_abort=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1 exitcode=66 report_signal_unsafe=0"
    e["VERIF_DIR"] = HERE
    e["VERIF_REPO"] = vbuild.REPO
    return e

def launch(run, exe):
    """how to start exe; None when this machine cannot run it (the thread sanitizer needs a memory layout that some
    kernels only give without address randomisation)"""
    if run.get("variant") != "tsan":
        return [exe]
    for pre in ([], ["setarch", "-R"]):
        try:
            q = subprocess.run(pre + [exe, "--probe"], env=env_for(run), capture_output=True, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            continue
        if b"ThreadSanitizer" not in q.stderr and b"setarch" not in q.stderr:
            return pre + [exe]
    return None

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for p, c in registry.CHECKS.items():
            for r in c["runs"]:
                build(r)
        return 0
    if a and a[0] == "--replay":
        rp = json.load(open(a[1]))
        chk = registry.CHECKS[rp["property"]]
        run = chk["runs"][rp["run"]]
        work = os.path.join(HERE, ".build", "run"); os.makedirs(work, exist_ok=True)
        todo = [run]
        if run.get("digests") == "in":
            todo = [r for r in chk["runs"] if r["prog"] == run["prog"] and r.get("digests") == "out"] + [run]
        for r in todo:
            exe = build(r)
            e = env_for(r); e["MC_VERBOSE"] = "1"
            rc = subprocess.call((launch(r, exe) or [exe]) + r.get("args", []) + digest_args(r, rp["property"], work) + ["--property", rp["property"],
                                  "--tier", rp["tier"], "--replay", rp["space"], str(rp["index"])], env=e, cwd=work)
        drop_digests(chk, rp["property"], work)
        return rc
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    chk = registry.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = os.path.join(HERE, ".build", "run"); os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    tot = dict(executions=0, transitions=0, states=0)
    samples, viol, spaces, extra = [], [], [], {}
    exhaustive = True
    for k, run in enumerate(chk["runs"]):
        if tier == "quick" and run.get("thorough_only"):
            continue
        exe = build(run)
        out = os.path.join(work, f"{prop}-{k}-{os.getpid()}.json")
        cmd = launch(run, exe)
        if cmd is None:
            print(f"note: {run['prog']} cannot be started with the thread sanitizer here; this run is left out", file=sys.stderr)
            exhaustive = False
            continue
        args = cmd + run.get("args", []) + digest_args(run, prop, work) + ["--property", prop, "--tier", tier, "--out", out]
        if "budget" in run:
            args += ["--budget", str(run["budget"][0 if tier == "quick" else 1])]
        p = subprocess.run(args, env=env_for(run), cwd=work)
        if (p.returncode < 0 and p.returncode != -9) or p.returncode == 66:
            # what a harness prepares (streams it encodes, states it saves) never fails on code for which the property holds
            why = {-14: "no end after 400 s", 66: "a data race"}.get(p.returncode, f"signal {-p.returncode}")
            viol.append((k, f"space=preparation index=0 execution: what the explored executions start from is made :: the code ended abnormally: {why}"))
            exhaustive = False
            break
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print(f"check error: {run['prog']} ended with status {p.returncode}", file=sys.stderr)
            return 2
        r = json.load(open(out)); os.unlink(out)
        for f in tot:
            tot[f] += r[f]
        exhaustive = exhaustive and r["exhaustive"]
        samples += r["samples"]
        spaces.append(f"[{run['prog']}/{run.get('variant', 'opt')}] " + r["spaces"])
        for f, v in r.items():
            if f not in ("executions", "transitions", "states", "exhaustive", "wall_s", "spaces", "samples", "violations"):
                extra[f] = extra.get(f, 0) + v
        for v in r["violations"]:
            m = re.match(r"space=(.*?) index=(\d+)", v)
            if m and "(hang)" in v:
                # alone, with a longer limit, before it is called a hang
                try:
                    q = subprocess.run(cmd + run.get("args", []) + digest_args(run, prop, work) + ["--property", prop, "--tier", tier, "--replay", m.group(1), m.group(2)],
                                       env=env_for(run), cwd=work, timeout=240, capture_output=True)
                    if q.returncode == 0:
                        print("note: slow but finished when run alone: " + v[:200], file=sys.stderr)
                        exhaustive = False
                        continue
                except subprocess.TimeoutExpired:
                    pass
            viol.append((k, v))
        if viol:
            break
    drop_digests(chk, prop, work)
    kf = [f for f in known_findings() if f[0] == prop]
    new, seen = [], set()
    for k, v in viol:
        m = [f for f in kf if f[1] in v]
        if m:
            seen.add(m[0])
        else:
            new.append((k, v))
    lines = []
    for f in kf:
        print(f"KNOWN-FINDING: property={prop} {f[2]}")
    for n, (k, v) in enumerate(new):
        m = re.match(r"space=(.*?) index=(\d+)", v)
        rp = os.path.join(HERE, "replays", f"{prop}-{n}.json")
        json.dump(dict(property=prop, tier=tier, run=k, space=m.group(1) if m else "", index=int(m.group(2)) if m else 0,
                       report=v, how=f"python3 {HERE}/check.py --replay {rp}"), open(rp, "w"), indent=1)
        print(v[:700])
        lines.append(f"VIOLATION property={prop} replay={rp}")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["executions"],
                            exhaustive=bool(exhaustive and not new), samples=samples[:8] or ["(none)"],
                            spaces=spaces, bounds=chk["bounds"], **{k.replace(" ", "_"): v for k, v in extra.items()}),
              wall_s=round(time.time() - t0, 2), violations=len(new), assumptions=chk["assumptions"])
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    print(f"{prop} {tier}: {tot['executions']} executions, {tot['transitions']} transitions, {tot['states']} distinct states, "
          f"{len(new)} violations, {time.time()-t0:.1f} s")
    return 1 if new else 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except vbuild.BuildError as e:
        print("check error: build failed\n" + str(e)[:8000], file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
