#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m sv.run "$@"
