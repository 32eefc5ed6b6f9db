#!/usr/bin/env python3
"""Builds the library variants and harnesses of the current tree once, so that checks start warm.  Checks
build what they need themselves when this was not run."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
for h in ("trxh", "trxpp", "trxproc", "trxpert"):
    print(build.harness(h))
print(build.python("trxpy"))
print(build.octave())
print(build.library("plain"))
print(build.program("tracker.c", libs=False, lang="c"))
