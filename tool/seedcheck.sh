#!/bin/bash
# seedcheck.sh ID...: runs the property's check on a copy of /repo with the planted change
V=$(cd "$(dirname "$0")/.." && pwd)
one() { id=$1; D=$(mktemp -d /tmp/sc.XXXX); git clone -q /repo $D/r; git -C $D/r apply $V/seeded/$id/patch.diff
  p=${2:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
  (cd $V && CNV_REPO=$D/r CNV_EVIDENCE=$D/ev python3 -m cnv.check $p > $D/out 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -c VIOLATION $D/out) | $(grep -A1 VIOLATION $D/out | sed -n 2p | cut -c1-220) | $(tail -1 $D/out)")
  rm -rf "$D"; }
export -f one; export V
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'
