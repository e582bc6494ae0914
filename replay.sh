#!/bin/bash
# replay.sh <replay file>   re-runs the one recorded case and prints what the monitor says
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TORCH_DEVICE=cpu LANG=C.UTF-8
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH=/repo:"$PWD"
exec /opt/venv/bin/python -W ignore -m mon.replay "$@"
