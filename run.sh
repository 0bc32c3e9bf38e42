#!/bin/bash
# Run one check: run.sh <property id> [--tier quick|thorough] [--replay FILE] ...
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/rv-mpl}"
PY=/opt/venv/bin/python
exec "$PY" -W ignore -m rv.main "$@"
