#!/bin/bash
# Usage: check.sh <property> [--replay file] ; honours VERIF_SEED and VERIF_TIER.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMBA_NUM_THREADS=1
[ -d /opt/venv/mplconfig ] && export MPLCONFIGDIR=/opt/venv/mplconfig
exec /opt/venv/bin/python "$here/check.py" "$@"
