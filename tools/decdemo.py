#!/usr/bin/env python3
"""decdemo.py ID: applies seeded change ID, lets its check find a stream, stores it as seeded/ID/stream.ivf with a demo.sh
that compares vp8decode's output with the picture checksum of the unchanged tree."""
import json, os, subprocess, sys, hashlib
sys.path.insert(0, "/verif/lib")
i = sys.argv[1]; d = f"/verif/seeded/{i}"; m = json.load(open(d + "/meta.json"))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh(f"git -C /repo apply {d}/patch.diff")
try:
    c = sh(f"python3 /verif/check.py {m['property']}", cwd="/verif")
    print(c.stdout[:400])
    if c.returncode != 1: print("not caught", c.stderr[-500:]); sys.exit(1)
    r = sh(f"MC_DUMP={d}/stream.ivf python3 /verif/check.py --replay /verif/replays/{m['property']}-0.json")
    print(r.stdout[-300:])
finally:
    sh("git -C /repo checkout -- .")
b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0
o = subprocess.run(["/repo/_build/src/frontend/vp8decode", "-o", "/tmp/demo.y4m", d + "/stream.ivf"], capture_output=True, text=True)
print(o.stderr)
h = hashlib.md5(open("/tmp/demo.y4m", "rb").read()).hexdigest(); os.unlink("/tmp/demo.y4m")
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# decodes a valid VP8 stream and compares the pictures with those of the reference decoder
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
/repo/_build/src/frontend/vp8decode -o "$t/out.y4m" "$here/stream.ivf" || exit 1
[ "$(md5sum < "$t/out.y4m" | cut -d' ' -f1)" = {h} ]
''')
