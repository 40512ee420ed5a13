#!/bin/bash
# check.sh <property> [quick|thorough]   |   check.sh <property> --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1
export PYTHONPATH="$here"
cd "$here"
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY -m vf.check "$@"
