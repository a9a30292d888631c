#!/bin/bash
# ./run.sh Cxx [--tier quick|thorough] [--seed N] [--replay FILE] | ./run.sh setup
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
if [ "$1" = setup ]; then exec $PY -m simkit.build; fi
exec $PY -m simkit.main "$@"
