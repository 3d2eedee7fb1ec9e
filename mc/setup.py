#!/usr/bin/env python3
"""Nothing to install: checks that the tools are there and creates the output folders."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build/bin", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
for t in ("g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing " + t)
print("ok")
