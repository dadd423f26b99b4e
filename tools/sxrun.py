#!/usr/bin/env python3
"""sxrun.py HARNESS.cpp [engine options]: build one harness and run it (env: DEFS, SERVER=1, PRE); for development"""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, sxbuild as b
h = dict(file=sys.argv[1], server=bool(os.environ.get("SERVER")), pre=os.environ.get("PRE", "").split(), pre_debugger=os.environ.get("PRED", "").split())
try:
    exe, info = check.build(h, os.environ.get("DEFS", "").split())
except b.BuildError as e:
    print(str(e)[-4000:]); sys.exit(2)
print(exe, info)
sys.exit(subprocess.run([exe] + sys.argv[2:]).returncode)
