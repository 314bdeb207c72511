#!/usr/bin/env python3
"""Checks that the tools the checks need are there; there is nothing to install."""
import shutil, sys
need = ["gcc", "/usr/lib/llvm-18/bin/clang", "python3", "/opt/vp/venv/bin/python"]
bad = [n for n in need if not shutil.which(n)]
if bad:
    print("missing:", bad)
sys.exit(1 if bad else 0)
