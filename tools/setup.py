#!/usr/bin/env python3
"""Checks that the tools are there and the specification parses."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

bad = 0
for f in sorted(os.listdir(core.SPEC)):
    if f.endswith(".tla"):
        p = subprocess.run(["java", "-cp", core.TLA, "tla2sany.SANY", f], cwd=core.SPEC, capture_output=True, text=True)
        if p.returncode != 0:
            print(p.stdout[-2000:])
            bad = 1
sys.exit(bad)
