#!/bin/bash
# judge.sh [id...]: runs the check of every planted bug against a scratch copy of /repo with the bug applied.
W=/tmp/jw; G=/tmp/jg
rm -rf /tmp/jw /tmp/jg; cp -a /repo $W; mkdir -p $G; cp -rT /verif/contracts $G/contracts; cp /verif/known-findings.txt $G
for d in /verif/seeded/*/; do
  id=$(basename $d); [ $# -gt 0 ] && [[ " $* " != *" $id "* ]] && continue
  git -C $W checkout -q . ; git -C $W apply $d/patch.diff || { echo "$id PATCH FAILS"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s); timeout 890 ${GOVBIN:-/verif/bin/gov} -check -verif $G -repo $W -prop $p > /tmp/jg/out 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^VIOLATION' /tmp/jg/out | grep -o 'no-failing.*\|replays.*json$' ) $(grep -m1 'on the real code' /tmp/jg/out)"
done
