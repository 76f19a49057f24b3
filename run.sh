#!/bin/bash
# ./run.sh <ID> <quick|thorough>: one property's check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"
export ASTROPY_USE_IERS_AUTO=0
exec /opt/venv/bin/python -m mc.run "$@"
