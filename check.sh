#!/bin/bash
# usage: check.sh <property id> [options of mon.core]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
exec /opt/venv/bin/python -B -m mon.core "$@"
