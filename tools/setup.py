#!/usr/bin/env python3
"""Nothing is built ahead: every check compiles library and harness from the working tree. Only tells whether the tools are there."""
import os, shutil, sys
missing = [t for t in ("clang", "clang++") if not shutil.which(t)]
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
if missing:
    print("missing: %s" % missing)
    sys.exit(1)
print("ok")
