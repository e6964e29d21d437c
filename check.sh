#!/bin/bash
# usage: check.sh <property id> [--thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC
export MPLCONFIGDIR=/opt/venv/mpl OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2
exec /opt/venv/bin/python -W ignore checks/run.py "$@"
