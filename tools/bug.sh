#!/bin/bash
# tools/bug.sh NAME...: run the property's check on a scratch copy of /repo with the planted change
for n in "$@"; do
  d=/verif/seeded/$n; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/bug.XXXX); cp -a /repo $t/repo; git -C $t/repo apply $d/patch.diff
  s=$(date +%s); VERIF_REPO=$t/repo VERIF_SEED=1 python3-vt /verif/check.py $p --tier quick >$t/out 2>$t/err; rc=$?
  echo "$n $p rc=$rc $(( $(date +%s)-s ))s $(grep -h VIOLATION $t/out | head -2 | tr '\n' ' ') $(tail -1 $t/err | cut -c1-150)"
  rm -r $t
done
