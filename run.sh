#!/bin/bash
# run.sh <property> [quick|thorough] [--replay FILE]    (cwd-independent)
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MTLN_REPO="${MTLN_REPO:-/repo}"
export PYTHONPATH="$MTLN_REPO/python:$here"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here" || exit 2
exec "$py" -B -W ignore -m lib.main "$@"
