#!/bin/bash
# Nothing to build: the checks are Python and import the code under test from /repo/src. Make sure it can be imported.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 $PY -B -c "import sys; sys.path.insert(0, '/repo/src'); import numpy, yaml, general_robotics_toolbox; print(general_robotics_toolbox.__file__)"
