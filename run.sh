#!/bin/bash
# run.sh <property> quick|thorough [--sub=name,..]   |   run.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 ARROW_IO_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m pbt "$@"
