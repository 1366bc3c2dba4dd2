#!/bin/bash
# bash run.sh C01 [quick|thorough] [--replay FILE]: one check against /repo's working tree.
cd "$(dirname "$0")" || exit 3
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
id="$1"; shift
case "${1:-}" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
exec timeout -k 10 "${VERIF_TIMEOUT:-3000}" /opt/venv/bin/python -B -m pbt "$id" "$@"
