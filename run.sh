#!/bin/bash
# usage: run.sh <property id> | run.sh replay <file>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg LANG=C.UTF-8
exec /opt/venv/bin/python -W ignore "$here/mc/harness.py" "$@"
