#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 SPEY_CHECKUPDATE=OFF TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c 'import sys; sys.path.insert(0, "."); from mc.core import main; sys.exit(main(sys.argv))' "$@"
