#!/bin/bash
# usage: try_seeded.sh ID...   (runs the check of the property of each planted
# bug on a scratch copy of /repo with the bug)
for id in "$@"; do
  D=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo/structuralcodes "$D/"
  (cd "$D" && git init -q . && git apply /verif/seeded/$id/patch.diff)
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  if diff -rq "$D/structuralcodes" /repo/structuralcodes -x __pycache__ >/dev/null; then echo "$id NOT APPLIED"; fi
  (cd /verif; PYTHONPATH=$D timeout 900 ./run.sh $p > /tmp/try.$id.out 2>&1; echo "$id $p rc=$? viol=$(grep -c ^VIOLATION /tmp/try.$id.out) $(tail -1 /tmp/try.$id.out)")
  rm -rf "$D"
done
