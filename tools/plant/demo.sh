#!/bin/sh
# run with cwd = the repository, after the build
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 $PY -W ignore "$(dirname "$0")/demo.py"
