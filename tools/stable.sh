#!/bin/bash
# development helper: stable tests of /repo's working tree
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILS
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/out.json'))['passed'])
print('not passing:',[t for t in b if t not in o],len(o))
P
