#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [args]
cd "$(dirname "$0")" || exit 2
P="$1"; shift
case "${1:-}" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
PY="${MC_PYTHON:-/opt/venv/bin/python}"
exec "$PY" -B -X pycache_prefix=/nonexistent-pycache -m mc.run "$P" "$@"
