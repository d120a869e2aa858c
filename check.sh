#!/bin/bash
# check.sh <property> [quick|thorough]   run the check of one property
# check.sh --replay <file>               re-execute one saved case
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="${TMPDIR:-/tmp}/verif-mpl-$$"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 RAYON_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p "$MPLCONFIGDIR"
"$PY" -m harness.cli "$@"
rc=$?
rm -rf "${TMPDIR:-/tmp}/verif-mpl-$$"
exit $rc
