#!/usr/bin/env python3
"""Offline sanity: tools present and every specification parses. Nothing built here is needed by the checks."""
import glob, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
mods = sorted(glob.glob(os.path.join(V, "specs", "*.tla")))
r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", *mods], capture_output=True, text=True, cwd=os.path.join(V, "specs"))
if r.returncode or "*** Errors" in r.stdout or "Fatal" in r.stdout:
    print(r.stdout[-3000:], r.stderr[-1000:]); sys.exit(1)
print(len(mods), "specifications parse")
