#!/bin/bash
cd "$(dirname "$0")/.."; export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore tools/probe.py "$@"
