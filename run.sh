#!/bin/bash
# run.sh check C01 | replay FILE | one C01 SEED
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -m sim.driver "$@"
