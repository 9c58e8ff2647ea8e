#!/bin/bash
# plant.sh ID: /repo holds an uncommitted change and seeded/ID its demo; keep the change as a planted bug
# after confirming that it builds, passes the stable tests, fails the demo, and is undone cleanly.
# With a patch.diff already there it is applied first.
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if git -C /repo diff --quiet; then git -C /repo apply $S/patch.diff || exit 2; else git -C /repo diff > $S/patch.diff; fi
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$ID: DOES NOT BUILD"; tail -20 /tmp/b.log; git -C /repo checkout -- .; exit 2; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<E2
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json')); p=set(t.get('passed') or [k for k,v in t.items() if v=='passed'])
m=[x for x in b if x not in p]; print('$ID tests:', 'all stable pass' if not m else 'FAIL %s'%m[:3])
E2
cd /repo; bash $S/demo.sh >/tmp/demo.log 2>&1; rc=$?
[ $rc -ne 0 ] && echo "$ID demo with bug: fails ($rc) ok" || echo "$ID demo with bug: PASSES (bad)"
tail -3 /tmp/demo.log | cut -c1-300
cd /verif; for c in ${2:-$P}; do timeout 900 python3 check.py $c | cut -c1-400 | tail -6; done
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/b.log 2>&1
cd /repo; bash $S/demo.sh >/tmp/demo.log 2>&1; rc=$?
[ $rc -eq 0 ] && echo "$ID demo clean: passes ok" || { echo "$ID demo clean: FAILS (bad)"; tail -5 /tmp/demo.log; }
