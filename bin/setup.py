#!/usr/bin/env python3
"""Checks that the tools the checks need are there. Nothing is built ahead of
time: every check compiles /repo's current tree and its own explorer."""
import shutil, sys
missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
if missing:
    print("missing:", ", ".join(missing)); sys.exit(1)
print("ready")
