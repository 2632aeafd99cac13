#!/usr/bin/env python3
"""Checks that the tools the checks need are there (the checks build from /repo themselves)."""
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
for t in ("clang++", "mpicxx", "mpirun", "gfortran"):
    if not shutil.which(t):
        print("missing tool", t)
        sys.exit(1)
os.makedirs(vlib.BUILD, exist_ok=True)
os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
print("ok")
