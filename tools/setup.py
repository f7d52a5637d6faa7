#!/usr/bin/env python3
"""Sanity check of the toolchain; nothing needs building."""
import os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
import vlib
for j in vlib.TLA_CP.split(":"):
    assert os.path.exists(j), j
subprocess.check_call(["java", "-version"])
subprocess.check_call([vlib.PY, "-c", "import numpy, rx, thespian"])
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(R, d), exist_ok=True)
print("ok")
