#!/usr/bin/env python3
"""Checks the toolchain and builds the part that does not depend on /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build_rt()
rc, out = vlib.run(["java", "-cp", vlib.TLAJAR, "tlc2.TLC", "-h"])
print("TLC available" if "TLC" in out else "TLC missing")
sys.exit(0 if "TLC" in out else 1)
