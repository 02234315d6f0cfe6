#!/bin/bash
# seed.sh ID: confirm a planted bug in a scratch copy of /repo (demo passes without, fails with, stable tests pass)
# and, with CHECKS="P01 P02", run these checks against it
set -u
id=$1; d=/verif/seeded/$id
[ -f $d/demo.sh ] || cp /verif/tools/demo_template.sh $d/demo.sh
git -C /repo status --short | grep -q . && { echo "repo dirty"; exit 1; }
[ -n "${NODEMO:-}" ] || { bash /opt/vp/build.sh >/tmp/seed.log 2>&1; (cd /repo; bash $d/demo.sh >/tmp/seed_a.log 2>&1); echo "$id unchanged: demo exit $? (want 0)"; }
git -C /repo apply $d/patch.diff || exit 1
if [ -z "${NODEMO:-}" ]; then
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "$id: does not build"; tail -30 /tmp/seed.log; }
  (cd /repo; bash $d/demo.sh >/tmp/seed_b.log 2>&1); echo "$id patched: demo exit $? (want nonzero)"; tail -3 /tmp/seed_b.log | cut -c1-300
  bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
  python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('$id stable tests failing:', [x for x in b['stable'] if x not in t['passed']])"
fi
for p in ${CHECKS:-}; do (cd /verif; python3 check.py $p quick 2>&1 | grep -v KNOWN | tail -4 | cut -c1-400 | sed "s/^/$id $p: /"); done
git -C /repo apply -R $d/patch.diff
git -C /repo status --short
