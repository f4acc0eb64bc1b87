#!/bin/bash
# check.sh ID [--replay FILE]: run the monitor of one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY="${PY:-/opt/venv/bin/python}"
export PYTHONPATH=/repo:"$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec "$PY" -m gspv "$@"
