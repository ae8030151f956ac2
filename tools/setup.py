#!/usr/bin/env python3
"""Verifies that the tools the checks need are present and that every specification parses."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for m in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", os.path.basename(m)], cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = r.returncode == 0 and "*** Errors" not in r.stdout
    print(os.path.basename(m), "ok" if ok else r.stdout[-1500:]); bad |= not ok
r = subprocess.run(["g++-14", "--version"], stdout=subprocess.PIPE, text=True); print(r.stdout.splitlines()[0]); bad |= r.returncode
sys.exit(bad)
