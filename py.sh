#!/bin/bash
# helper: run python with the check environment
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/vp/no-npm:/opt/venv/bin:/usr/bin:/bin PYTHONHASHSEED=${PYTHONHASHSEED:-1} PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 VERIF_HOME=$here PYTHONPATH=$here:${HATCHET_REPO:-/repo}
exec /opt/venv/bin/python "$@"
