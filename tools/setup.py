#!/usr/bin/env python3
"""Checks the tools and builds the library variants that all checks share."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vp import build
for t in ("clang++", "g++", "valgrind"):
    if not shutil.which(t):
        print("missing tool", t)
for v in ("asan", "u32", "rel"):
    try:
        build.lib(v)
        print("built", v)
    except build.BuildError as e:
        print("not built:", v, str(e)[-500:])
