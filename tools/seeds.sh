#!/bin/bash
# Runs each planted bug's check against a scratch copy of the source with the bug applied: seeds.sh [ID...]
cd "$(dirname "$0")/.."
ids=${@:-$(ls seeded)}
for i in $ids; do
  w=$(mktemp -d /tmp/seed.XXXX); cp -a /repo/src "$w/src"
  if (cd "$w" && git init -q . && git apply "/verif/seeded/$i/patch.diff"); then
    p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
    s=$(date +%s)
    HALOMOD_SRC="$w/src" timeout 900 /opt/venv/bin/python check.py $p > "$w/out" 2>&1; rc=$?
    echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' "$w/out") violations"
  else echo "$i does not apply"; fi
  rm -rf "$w"
done
