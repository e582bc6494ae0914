#!/bin/bash
# check.sh <check module> [quick|thorough]   runs one monitor against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TORCH_DEVICE=cpu LANG=C.UTF-8
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
# the working tree itself is imported (no build product; mon/nocache.py keeps cached bytecode of /repo out)
export PYTHONPATH=/repo:"$PWD"
exec /opt/venv/bin/python -W ignore -m mon "$@"
