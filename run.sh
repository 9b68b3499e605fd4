#!/bin/bash
# bash run.sh C01 quick|thorough | bash run.sh replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export PYTHONPYCACHEPREFIX=/nonexistent/no-pycache
export GDK_BACKEND=x11 GTK_A11Y=none NO_AT_BRIDGE=1 GIO_USE_VFS=local GSETTINGS_BACKEND=memory
unset WAYLAND_DISPLAY VERIF_EVIDENCE
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" mc/main.py "$@"
