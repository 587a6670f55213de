#!/bin/bash
# usage: run.sh <property> [--replay FILE]; tier and seed come from VERIF_TIER and VERIF_SEED
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m mon.cli "$@"
