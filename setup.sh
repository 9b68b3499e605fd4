#!/bin/bash
# Nothing to build: check that the interpreter and the code under test load.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export PYTHONPYCACHEPREFIX=/nonexistent/no-pycache
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -c 'import sys; sys.path.insert(0, "mc"); import lib, engine; print("ok", lib.REPO)'
