#!/bin/bash
# nothing to build: the checks are plain Python over /repo's working tree; make sure the interpreter sees it
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -c "import pbt.lib, pbt.gen; print('ok', pbt.lib.awkward0.__file__)"
