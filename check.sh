#!/bin/bash
# bash check.sh C01 : decide one property against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 SDL_VIDEODRIVER=dummy PYTHONPATH=$PWD
exec /opt/venv/bin/python -W ignore -m dst.check "$1"
