#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses.  Nothing is kept."""
import glob, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
bad = 0
for f in sorted(glob.glob(os.path.join(vlib.SPEC, "*.tla"))):
    r = subprocess.run(["java", "-DTLA-Library=" + vlib.SPEC, "-cp", vlib.JAR, "tla2sany.SANY", f],
                       cwd=vlib.SPEC, capture_output=True, text=True)
    if r.returncode != 0 or "Semantic errors" in r.stdout or "***Parse Error***" in r.stdout:
        print(r.stdout[-2000:])
        bad = 1
print("specifications parse" if not bad else "a specification does not parse")
sys.exit(bad)
