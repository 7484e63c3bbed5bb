#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay file]
# the code under test is imported freshly compiled from /repo's working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent PYTHONIOENCODING=utf-8
PYTHON=/opt/venv/bin/python
if [ "$1" = --setup ]; then
    # nothing to build: only check that the interpreter and the libraries used as oracles are there
    exec $PYTHON -B -c 'import docutils, textile, markdown, commonmark, pygments'
fi
exec $PYTHON -B -W ignore -c 'import sys; sys.path.insert(0, sys.argv.pop(1)); from vf.core import main; sys.exit(main())' "$PWD" "$@"
