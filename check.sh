#!/bin/bash
# bash check.sh <property id> [quick|thorough]
# Runs one property check against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
TMP=$(mktemp -d /tmp/verif_XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
export VERIF_TMP="$TMP" TMPDIR="$TMP"
export HOME=${HOME:-/root} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR="$TMP/mpl"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
mkdir -p "$TMP/mpl" evidence
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
/opt/venv/bin/python -W ignore harness/run.py "$1"
exit $?
