#!/usr/bin/env python3
"""Builds the framework once (every check rebuilds by itself) and validates the references."""
import os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
os.chdir(V)
sys.path.insert(0, V)
sys.argv = ["check.py", "setup"]
import check
for v in ("checked", "plain"):
    b = check.build(v)
    subprocess.run([b, "selftest"], check=True)
