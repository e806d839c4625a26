#!/usr/bin/env python3
"""Nothing has to be installed: every check builds what it needs from /repo's working tree. This only verifies the tools."""
import shutil, sys
for t in ("g++", "clang++", "python3"):
    if not shutil.which(t): sys.exit(f"missing {t}")
import numpy, ase
print("ok")
