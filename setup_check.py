#!/usr/bin/env python3
"""Checks that the tools the checks need are there (each check compiles its own drivers)."""
import shutil, subprocess, sys
for t in ("java", "mpicxx", "mpiexec"):
    if not shutil.which(t):
        sys.exit("missing " + t)
sys.exit(0)
