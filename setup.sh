#!/bin/bash
# Nothing to build: check that the interpreter and the package under test are importable.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec env PYTHONDONTWRITEBYTECODE=1 "$PY" -c "
from mc import run
run.prepare()
from mc import core, impl, prog, ref
print('ok')
"
