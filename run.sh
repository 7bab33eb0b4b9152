#!/bin/bash
# usage: run.sh ID   (environment: VERIF_TIER=quick|thorough, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH=$PWD:/repo/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED="${VERIF_SEED:-0}"
export TQDM_DISABLE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLCONFIGDIR="${TMPDIR:-/tmp}/vt-mpl"
exec /opt/venv/bin/python -W ignore -m vt.main "$@"
