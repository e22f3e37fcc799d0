#!/bin/bash
# caught.sh ID...: run the check of each planted bug's property on a scratch copy of /repo with the bug applied
for ID in "$@"; do
  V=/verif/seeded/$ID; W=/tmp/caught-$ID; rm -rf "$W"; mkdir -p "$W"
  git clone -q /repo "$W/repo"; git -C "$W/repo" apply "$V/patch.diff"
  P=$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")
  (cd /verif && SMLV_REPO=$W/repo timeout 900 python3-vt check.py $P 2>&1 | grep -a "VIOLATION\|obligations," | cut -c1-180 | sed "s/^/$ID: /")
  rm -rf "$W"
done
