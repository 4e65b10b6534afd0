#!/bin/bash
# Usage: run.sh <property> [quick|thorough] | run.sh --replay FILE
# Runs one check (see DESIGN.md) against the current tree of /repo.
set -u
cd "$(dirname "$0")"
. /opt/vp/env.sh
export PYTHONHASHSEED=0 PYTHONWARNINGS=ignore TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
WORK=$(mktemp -d /tmp/pbt.XXXXXXXX)
trap 'rm -rf "$WORK"' EXIT
export PYTHONPYCACHEPREFIX="$WORK/pyc" PBT_WORK="$WORK"
unset PYTHONDONTWRITEBYTECODE
"$PY" -m pbt.main "$@"
exit $?
