#!/usr/bin/env python3
"""Checks that the tools the harnesses need are there (nothing to install or download)."""
import os
import shutil
import sys

missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".build"), exist_ok=True)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
if missing:
    sys.exit("missing tools: " + " ".join(missing))
print("ok")
