#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and parses every specification. Harnesses are
compiled by the checks themselves, from /repo's working tree."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from lib import vf
ok = True
mods = sorted(f for f in os.listdir(vf.SPEC) if f.endswith(".tla"))
for f in mods:
    r = subprocess.run(["java", "-cp", vf.JAR + ":" + ":".join(vf.cp_modules()), "tla2sany.SANY", f], cwd=vf.SPEC, capture_output=True, text=True)
    if r.returncode != 0 or "*** Errors" in r.stdout or "Fatal" in r.stdout:
        print(f, "does not parse:\n", r.stdout[-2000:])
        ok = False
r = subprocess.run(["g++", "--version"], capture_output=True)
ok = ok and r.returncode == 0
print("setup", "ok" if ok else "FAILED", len(mods), "modules")
sys.exit(0 if ok else 1)
