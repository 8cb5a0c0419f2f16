#!/bin/bash
# check.sh <PROPERTY> <quick|thorough> [more arguments of mc.run]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
prop="$1"; tier="$2"; shift 2
exec env PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 "$PY" -m mc.run "$prop" --tier "$tier" "$@"
