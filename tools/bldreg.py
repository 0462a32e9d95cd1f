#!/usr/bin/env python3
"""bldreg.py NAME: builds the run description NAME of lib/registry.py and prints the program's path (for experiments)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "lib"))
import registry, check
print(check.build(getattr(registry, sys.argv[1])))
