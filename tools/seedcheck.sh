#!/bin/bash
# tools/seedcheck.sh ID...: is each planted bug valid (tests pass, demo tells the trees apart) and caught?
cd "$(dirname "$0")/.." || exit 3
V=$PWD
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo is not clean"; exit 3; }
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  tmp=$(mktemp -d); cp "$d"/* "$tmp"; rm -f "$tmp"/meta.json "$tmp"/patch.diff
  (cd /repo && bash "$tmp/demo.sh" >/dev/null 2>&1); clean=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
  t=$(python3 -c "
import json;d=json.load(open('/tmp/seed_out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
b=b['stable']
print(len(set(b)-set(d['passed'])))")
  (cd /repo && bash "$tmp/demo.sh" >/dev/null 2>&1); bad=$?
  out=$(VERIF_SEED=${VERIF_SEED:-1} bash run.sh "$prop" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id: build=$b missing_tests=$t demo clean=$clean patched=$bad  $prop rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
  rm -rf "$tmp"
done
