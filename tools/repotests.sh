#!/bin/bash
# Run the repository's own tests and compare with the stable baseline.
out=$(mktemp); bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh $out >/dev/null 2>&1
python3 - $out <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
miss=[x for x in b if x not in t['passed']]
print("stable", len(b), "passed", len(t['passed']), "missing", miss)
sys.exit(1 if miss else 0)
PY
