#!/usr/bin/env python3
"""bld.py VARIANT HARNESS: builds one harness program and prints its path (for experiments)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vbuild
v, n = sys.argv[1:3]
print(vbuild.Builder(v).program(n, [os.path.join(vbuild.VERIF, "harness", n + ".cc")], libs=("decoder", "encoder", "util", "net", "input"), ldextra=["-ldl"]))
