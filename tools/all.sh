#!/bin/bash
# All built checks one after another: tools/all.sh [quick|thorough] [first seed] [last seed]
cd "$(dirname "$0")/.." || exit 3
for s in $(seq "${2:-1}" "${3:-${2:-1}}"); do
  for f in pbt/checks/c[0-9]*.py; do
    id=$(basename "$f" .py | tr c C); t=$(date +%s)
    out=$(VERIF_SEED=$s bash run.sh "$id" "${1:-quick}" 2>&1); rc=$?
    echo "seed $s $id rc=$rc $(( $(date +%s) - t ))s"
    [ $rc = 0 ] || echo "$out" | grep -v "^  [^ ]" | cut -c1-2500
  done
done
