#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, properties.jsonl, checks.json, the test sources and seeded/*/meta.json."""
import json, os, re, glob, textwrap
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
conf = json.load(open("checks.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
extra = json.load(open("tools/design/extra.json"))
w = lambda t, ind="": textwrap.fill(t, 78, initial_indent=ind, subsequent_indent="  " if ind else "", break_on_hyphens=False)
out = [open("tools/design/head.md").read()]
for p in props:
    i = p["id"]; c = conf[i]
    src = "".join(open(f).read() for f in sorted(glob.glob("harness/%s/*_test.go" % i.lower())))
    tests = [t for t in re.findall(r"^func (Test\w+)\(", src, re.M) if t != "TestMain"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(w("Anchors: " + ", ".join(p["anchors"]["files"]) + ".  T: " + ", ".join(tests) + ".  Quick run: " + extra.get("cost", {}).get(i, "?") + "."))
    out.append("\n" + w("Technique: " + c["technique"] + "."))
    out.append("\n" + w("Cases: " + c["rule"]))
    out.append("\n" + w("Limits: " + c["note"]))
    if c.get("assumptions"): out.append("\n" + w("Assumed: " + "; ".join(c["assumptions"]) + "."))
    out.append("\n" + w("Beyond the tests: " + p["why_tests_cant"]))
    seeds = [os.path.basename(os.path.dirname(f)) for f in sorted(glob.glob("seeded/*/meta.json")) if json.load(open(f))["property"] == i]
    if seeds: out.append("\n" + w("Planted bugs: " + ", ".join(seeds) + "."))
    out.append("")
out.append(open("tools/design/tail.md").read())
out.append("## 6 Planted bugs\n\nEach in `seeded/<id>/`, written from the property and the code, confirmed by\n`tools/seedcheck.py` (applies, builds, passes the stable tests, demo passes\nwithout and fails with it), and run against its property's quick check.\n")
also = extra.get("also", {})
for f in sorted(glob.glob("seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    st = extra.get("seed", {}).get(n, "caught by " + m["property"])
    if n in also: st += " (also " + ", ".join(also[n]) + ")"
    out.append(w("* `%s` (%s): %s. Needs: %s. %s." % (n, m["property"], m["what_it_breaks"], m["needs"], st[0].upper() + st[1:]), "") .replace("\n", "\n  "))
out.append("")
out.append(open("tools/design/end.md").read())
open("DESIGN.md", "w").write("\n".join(out))
