#!/bin/sh
# Builds /repo, runs its tests and lists stable tests that no longer pass.
bash /opt/vp/build.sh >/tmp/bc.log 2>&1 || { tail -20 /tmp/bc.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/bc.json >/tmp/bc.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/bc.json'))['passed'])
m=[t for t in b if t not in o]
print('stable', len(b), 'missing', m); sys.exit(bool(m))
P
