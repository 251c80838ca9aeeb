#!/bin/bash
# run.sh <property> : runs one check against /repo's working tree (tier from VERIF_TIER, seed from VERIF_SEED)
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 POLARS_MAX_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
# never read byte code kept elsewhere: it is matched by mtime in seconds and size only
PYC=$(mktemp -d) || exit 2
trap 'rm -rf "$PYC"' EXIT
export PYTHONPYCACHEPREFIX="$PYC"
if [ -n "$ATGMON_SRC" ]; then export PYTHONPATH="$ATGMON_SRC"; fi   # development only: a scratch copy
/opt/venv/bin/python -m atgmon "$@"
