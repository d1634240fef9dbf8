#!/bin/bash
# usage: run.sh <PROPERTY-ID> [quick|thorough]
# Explores the executions of the property's bounded space on the code of /repo's
# working tree (imported from source: nothing to build) and writes evidence/<ID>.json.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0
export PYTHONPATH="/repo/src:$PWD"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec /opt/venv/bin/python -m mc.main "$1"
