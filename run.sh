#!/bin/bash
# usage: run.sh <property> <quick|thorough> [options of dst.check]
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
unset PYTHONPATH
exec /opt/venv/bin/python -m dst.check "$1" --tier "${2:-quick}" "${@:3}"
