#!/usr/bin/env python3
"""setup_cmd: check that the tools are there and warm Go's build cache."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
scratch = tempfile.mkdtemp(prefix="verif_setup_")
try:
    for name in sorted({c["driver"] for s in run.CHECKS.values() for c in s["conform"]}):
        run.build_driver(name, scratch)
        print("built", name)
    rc, out = run.sh(["java", "-version"])
    sys.exit(rc)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
