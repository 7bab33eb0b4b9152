#!/bin/bash
# usage: replay.sh evidence/replays/FILE.json
cd "$(dirname "$0")" || exit 2
export PYTHONPATH=$PWD:/repo/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m vt.replay "$@"
