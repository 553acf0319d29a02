#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] | run.sh --replay FILE
cd "$(dirname "$0")" || exit 3
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 JOBLIB_MULTIPROCESSING=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$PWD:$PWD/vendor"
SCRATCH="$(mktemp -d)"; export TMPDIR="$SCRATCH" HYPOTHESIS_STORAGE_DIRECTORY="$SCRATCH/hyp"
trap 'rm -rf "$SCRATCH"' EXIT
/opt/venv/bin/python -m pbt "$@"
