#!/usr/bin/env python3
"""Prepare a fresh copy: make sure the tools the checks need are there and
that the committed font constants are readable. Checks build everything else
themselves from /repo's working tree."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

os.makedirs(vlib.OUT, exist_ok=True)
os.makedirs(vlib.BUILD, exist_ok=True)
missing = [t for t in ("java", "cargo", "go", "node") if not shutil.which(t, path=vlib.env()["PATH"] + ":/usr/local/go/bin")]
if missing:
    sys.exit("missing tools: %s" % missing)
assert len(vlib.golden()) == 5
vlib.build_driver("dev")
print("ok")
