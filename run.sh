#!/bin/bash
# run.sh cNN [args]: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=agg PYTHONHASHSEED=0
exec /opt/venv/bin/python -B -m "checks.$1" "${@:2}"
