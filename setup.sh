#!/bin/bash
# Builds the Cython extensions of /repo's current tree out of tree (cached in .build by content hash).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/vp/no-npm:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export VERIF_HOME=$here PYTHONPATH=$here PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "from mc import env; print(env.extensions())"
