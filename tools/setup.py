#!/usr/bin/env python3
"""Checks that the tools the checks need are installed (nothing is downloaded or generated)."""
import shutil, sys
miss = [t for t in ("clang", "clang++", "gcc", "ar", "python3", "bash") if not shutil.which(t)]
if miss: print("missing:", " ".join(miss)); sys.exit(1)
print("ok")
