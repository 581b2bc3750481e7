#!/bin/bash
# Runs TestDemo inside the package: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /repo || exit 2
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
python3 - "$here" "$work" <<'P'
import json, os, sys
here, work = sys.argv[1:]
m = {}
for f in sorted(os.listdir(here)):
    if f.endswith("_test.go"):
        d = "/repo/syntax/" if f.startswith("syntax_") else "/repo/"
        m[d + "zz_demo_" + f] = os.path.join(here, f)
json.dump({"Replace": m}, open(os.path.join(work, "overlay.json"), "w"))
P
pkg=.
ls "$here"/syntax_*_test.go >/dev/null 2>&1 && pkg=./syntax
race=
[ -f "$here/race" ] && race=-race
exec 3>&1
timeout 250 go test -overlay "$work/overlay.json" -vet=off -count=1 $race -run '^TestDemo$' -timeout 200s $pkg 2>&1 | tail -40
exit ${PIPESTATUS[0]}
