#!/bin/bash
# usage: tools/stable.sh [OUT] - runs the repository's tests and compares with the baseline
o=${1:-/tmp/stable.json}
bash /opt/vp/build.sh >/tmp/stable.log 2>&1 || { tail -20 /tmp/stable.log; exit 1; }
bash /opt/vp/test.sh "$o" >/dev/null 2>&1
python3 - "$o" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
k=[k for k in b if isinstance(b[k],list) and len(b[k])>100][0]
m=[t for t in b[k] if t not in set(o['passed'])]
print("stable",len(b[k]),"missing",len(m),m[:5]);sys.exit(1 if m else 0)
P
