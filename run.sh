#!/bin/bash
# run.sh <ID> [--thorough] [-v] [--replay FILE]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 NUMBA_DISABLE_JIT=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec /opt/venv/bin/python -W ignore symx/run.py "$@"
