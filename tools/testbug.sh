#!/bin/bash
# testbug.sh ID...: does the repository's own test suite stay green with the planted bug?
for id in "$@"; do
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "$id: BUILD FAILED"; tail -20 /tmp/tb.log; }
bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1
git -C /repo checkout -q -- .
python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
def names(x):
    for k in ("stable","passed","tests"):
        if k in x: return set(x[k])
    return set(k for k,v in x.items() if v in ("passed","pass",True))
s=names(b); p=names(r)
print(sys.argv[1], "tests lost:", sorted(s-p)[:6] if s else (list(b)[:5], list(r)[:5]))
P
done
