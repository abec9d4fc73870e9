#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
cd "$here" || exit 3
exec /opt/venv/bin/python -X faulthandler "$here/run.py" "$@"
