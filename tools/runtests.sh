#!/bin/bash
# build + run the stable tests of /repo; prints the stable tests that do not pass
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD-FAILED; exit 2; }
bash /opt/vp/test.sh /tmp/vp_out.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vp_out.json'))
miss=set(b['stable'])-set(o['passed'])
print("stable failing:", len(miss)); [print("  ",m) for m in sorted(miss)[:20]]
sys.exit(bool(miss))
P
