#!/bin/bash
# check.sh <ID> [...]: runs check.py with the interpreter and environment the library is built for
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -B "$HERE/check.py" "$@"
