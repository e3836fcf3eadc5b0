#!/usr/bin/env python3
"""setup_cmd: builds every harness once (the checks build what they need again from the current tree)."""
import os, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mmgbuild
from checks import CHECKS
from mmgbuild import harness
t = time.time(); done = set()
for p, c in CHECKS.items():
    for j in c["jobs"]:
        k = (j["harness"], j.get("variant", "plain"), j.get("vtk", False))
        if k not in done:
            done.add(k)
            print(harness(k[0], k[1], k[2], j.get("cflags", ()), j.get("link", ())), "%.0fs" % (time.time() - t))
