#!/usr/bin/env python3
"""seedcheck.py [--nocheck] [ID...]: judges planted bugs one after another on /repo:
patch applies, builds, stable tests pass, demo fails with it and passes without; then the property's check must report it."""
import json, os, subprocess, sys
args = sys.argv[1:]
nocheck = "--nocheck" in args
only = [a for a in args if not a.startswith("-")]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
B = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
if sh("git -C /repo status --porcelain").stdout: sys.exit("/repo is not clean")
for i in only or sorted(os.listdir("/verif/seeded")):
    d = "/verif/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    out = []
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    out.append("demo-clean=%d" % r.returncode)
    if r.returncode: print(r.stdout[-1500:])
    if sh("git -C /repo apply %s/patch.diff" % d).returncode:
        print(i, "DOES NOT APPLY"); continue
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(i, "DOES NOT BUILD", b.stderr[-500:]); continue
        sh("bash /opt/vp/test.sh /tmp/sc.json")
        miss = B - set(json.load(open("/tmp/sc.json"))["passed"])
        out.append("tests-missing=%s" % (sorted(miss)[:3] if miss else 0))
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        out.append("demo-patched=%d" % r.returncode)
        if r.returncode == 0: print(r.stdout[-800:])
        elif "-v" in args: print(r.stdout[-800:])
        if not nocheck:
            e = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            r = sh("python3 /verif/run.py " + m["property"], cwd="/verif", env=e)
            v = "VIOLATION property=%s" % m["property"] in r.stdout
            out.append("check=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED"))
            if r.returncode == 2: print(r.stdout[-800:])
    finally:
        sh("git -C /repo checkout -- .")
    print(i, m["property"], *out, flush=True)
