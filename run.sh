#!/bin/sh
# run.sh Cxx            run the check of a property (VERIF_SEED, VERIF_TIER)
# run.sh Cxx --replay F re-run one saved case
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python "$here/lib/run.py" "$@"
