#!/bin/bash
# check.sh <property> [quick|thorough] [more arguments of rmon/run.py]
cd "$(dirname "$0")" || exit 3
p=$1; t=${2:-${VERIF_TIER:-quick}}; shift; shift
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec $PY -B rmon/run.py "$p" --tier "$t" "$@"
