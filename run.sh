#!/bin/bash
# usage: run.sh PROPERTY [runner options]
cd "$(dirname "$0")" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m symx.runner "$@"
