#!/usr/bin/env python3
"""Checks the tools the checks need; every check builds what it needs itself."""
import shutil, sys
for t in ("g++", "python3"):
    if not shutil.which(t):
        print("missing " + t); sys.exit(1)
print("ok")
