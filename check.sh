#!/bin/bash
# check.sh <PROPERTY> | --replay FILE : run a check against the working tree in /repo.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VERIF_HASHSEED:-0}" PYTHONUTF8=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPYCACHEPREFIX PYTHONPATH PYTHONSTARTUP PYTHONWARNINGS
export PYTHONPATH="$here"
cd "$here" || exit 2
exec /opt/venv/bin/python -m sim.main "$@"
