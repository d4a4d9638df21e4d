#!/bin/bash
# developer helper: expand templates and run verus on them
set -e
out=/tmp/v/$1; shift
mkdir -p /tmp/v
(cd /verif/specs && /verif/vx/target/debug/vx /repo $out.rs $out.json "$@")
python3 - $out.json <<'P'
import json,sys
j=json.load(open(sys.argv[1]))
for k in('missing','misfits','inlined'):
    if j[k]: print(k,j[k])
P
cd /tmp/v && verus --triggers-mode silent $VARGS $out.rs
