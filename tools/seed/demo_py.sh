#!/bin/bash
# Runs demo.py with the package built in ./_build.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export STARPU_SILENT=1 STARPU_HOME=$W STARPU_WORKERS_NOBIND=1 STARPU_MAIN_THREAD_NOBIND=1 STARPU_FXT_TRACE=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$R/_build/wrappers/python:/opt/nntile-vp
PY=/opt/nntile-venv/bin/python
cd "$W"
timeout 200 $PY "$D/demo.py"
