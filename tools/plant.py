#!/usr/bin/env python3
"""plant.py ID [--nocheck]: confirms a planted bug of /verif/seeded/ID in the scratch copy /tmp/plant: it applies, builds, passes
the tests, its demonstration fails with it and passes without it; then runs the check of its property against it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "/tmp/plant"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def one(i, check=True):
    d = os.path.join(V, "seeded", i)
    if not os.path.isdir(P): sh("cp -a /repo " + P)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq src", cwd=P)
    r = dict(id=i)
    a = sh("git apply %s/patch.diff" % d, cwd=P)
    if a.returncode: r["apply"] = a.stdout[:300]; return r
    t = sh("bash %s/tools/wtest.sh %s" % (V, P)); r["tests"] = t.stdout.strip().splitlines()[-1][:200]
    w = sh("bash %s/demo.sh" % d, cwd=P); r["with"] = w.returncode
    if not os.environ.get("SKIP_CLEAN"):
        w0 = sh("bash %s/demo.sh" % d, cwd="/repo"); r["without"] = w0.returncode
        if w0.returncode: r["out"] = w0.stdout[-600:]
    if check:
        for p in [json.load(open(d + "/meta.json"))["property"]] + os.environ.get("ALSO", "").split():
            c = sh("VERIF_REPO=%s timeout 900 python3 %s/tools/check.py %s quick" % (P, V, p))
            r["check_" + p] = (c.returncode, c.stdout.strip().splitlines()[-1][:110] if c.stdout.strip() else "")
    return r
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        print(json.dumps(one(i, "--nocheck" not in sys.argv)), flush=True)
