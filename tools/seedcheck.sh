#!/bin/bash
# seedcheck.sh ID... : runs the property's quick check (and prints the verdict) on a scratch copy with the planted bug
cd "$(dirname "$0")/.."; H=$PWD
for id in "$@"; do
  d=/tmp/sc.$id; rm -rf $d; cp -a ${REPO:-/repo} $d
  (cd $d && git apply $H/seeded/$id/patch.diff) || { echo "$id PATCH FAILS"; rm -rf $d; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$H/seeded/$id/meta.json'))['property'])")}
  s=$(date +%s)
  out=$(VERIF_REPO=$d VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p --tier quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -A1 -m1 "scenario .* variant" | tr '\n' ' ' | cut -c1-220)"
  rm -rf $d
done
