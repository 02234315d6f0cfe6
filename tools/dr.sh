#!/bin/bash
# dr.sh TIER SECONDS SEED PROPS...: build and run the driver, print a summary
cd /verif; t=$1; s=$2; seed=$3; shift 3
python3 lib/ws.py cargo build --offline -q -p driver 2>&1 | grep -E "^error" -A12 | head -${LINES_MAX:-60}
for p in "$@"; do timeout $((s+100)) build/target/debug/driver $p $seed $t $s /tmp/d_$p.json >/tmp/d_$p.log 2>&1; echo "$p rc=$?"; python3 -c "
import json;d=json.load(open('/tmp/d_$p.json'));print(d['cases'],d['evaluations'],d['distinct_nontrivial'],round(d['wall_s'],1),d['tags'],list(d['known'].items())[:2]);v=d['violation'];
if v: print(v['case'],v['what'][:900]); print(v['input'][:700])"; done
