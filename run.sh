#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] [extra args]   -- runs one check against /repo's working tree
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/vp/no-npm:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export VERIF_SEED=${VERIF_SEED:-1}
prop=$1; shift
if [ $# -gt 0 ] && { [ "$1" = quick ] || [ "$1" = thorough ]; }; then VERIF_TIER=$1; shift; fi
export VERIF_TIER=${VERIF_TIER:-quick}
# string-hash order is one of the nondeterminism sources: it follows the seed
export PYTHONHASHSEED=$(( VERIF_SEED % 4294967295 ))
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_HOME=$here
export PYTHONPATH=$here:${HATCHET_REPO:-/repo}
exec /opt/venv/bin/python -m mc.main "$prop" "$@"
