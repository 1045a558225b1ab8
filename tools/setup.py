#!/usr/bin/env python3
"""Builds everything that the checks use, and lets TLC parse the specifications."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vf import build
for v in ("plain", "asan", "tsan"):
    print(build.build(v)["dir"])
print(build.build("plain", True)["dir"])
