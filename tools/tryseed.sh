#!/bin/bash
# tryseed.sh ID: demo on the clean tree, tests+demo+check with the patch (applied to /repo, undone afterwards)
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 9; }
[ -n "$SKIPCLEAN" ] || { (cd /repo; bash "$D/demo.sh" >/tmp/ts.out 2>&1); echo "clean demo rc=$?"; }
git -C /repo apply "$D/patch.diff" || exit 8
if [ -z "$SKIPTEST" ]; then bash /opt/vp/build.sh >/tmp/ts.build 2>&1 || echo "BUILD FAILS"; bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/ts.json'))
base=b.get('passed') or b.get('stable') or b
base=set(base if isinstance(base,list) else base.keys())
print("stable tests lost:", sorted(base-set(o['passed']))[:5])
P
(cd /repo; bash "$D/demo.sh" >/tmp/ts.out 2>&1); echo "patched demo rc=$?"; tail -3 /tmp/ts.out; fi
(cd $V; VERIF_TIER=quick python3 check.py $P ${2:+--only $2} 2>&1 | tail -4 | cut -c1-300)
git -C /repo checkout -- .
