#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
conf = json.load(open("checks.json"))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "sh tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo as it is (C31 adds a shim file by go build -overlay)", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    c = conf.get(i)
    if c is None:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 run.py " + i,
                        "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
