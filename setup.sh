#!/bin/bash
# Nothing to build: LEAP is pure python and is imported from /repo's working
# tree by every check.  Only make sure that the interpreter can do so.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONPATH=$PWD
exec /opt/venv/bin/python -W ignore -c 'from dst import core; core.load_leap(); print("ok")'
