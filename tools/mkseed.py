#!/usr/bin/env python3
"""mkseed.py < SPEC: makes /verif/seeded/<id> from a Python spec:
   S(id, prop, needs, breaks, edits, demo, race=False), edits = [(file, old, new)]."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
def S(id, prop, needs, breaks, edits, demo, race=False, syntax=False):
    d = os.path.join(V, "seeded", id)
    w = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + w, shell=True, check=True)
        subprocess.run(["git", "init", "-q"], cwd=w, check=True)
        subprocess.run("git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=w, check=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %s: %d occurrences of %r" % (id, f, s.count(old), old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy(V + "/tools/seedtmpl/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    if syntax:
        open(d + "/syntax_demo_test.go", "w").write(demo.lstrip())
    else:
        shutil.copy(V + "/tools/seedtmpl/util_test.go", d + "/util_test.go")
        open(d + "/demo_test.go", "w").write(demo.lstrip())
    if race:
        open(d + "/race", "w").write("")
    print("made", id)
exec(sys.stdin.read())
