#!/bin/bash
# check.sh <property id>: model-check one property on the current tree of /repo
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
export MPLCONFIGDIR="${TMPDIR:-/tmp}"
exec /opt/venv/bin/python -m mc.run "$@"
