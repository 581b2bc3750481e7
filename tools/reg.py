#!/usr/bin/env python3
"""reg.py ID <<< JSON: adds or replaces the entry of one check and regenerates MANIFEST.json."""
import json, os, subprocess, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
c = json.load(open("checks.json"))
c[sys.argv[1]] = json.load(sys.stdin)
json.dump(dict(sorted(c.items())), open("checks.json", "w"), indent=1)
subprocess.check_call(["python3", "tools/gen_manifest.py"])
