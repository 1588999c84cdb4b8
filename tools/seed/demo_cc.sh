#!/bin/bash
# Builds and runs demo.cc against the library built in ./_build.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export STARPU_SILENT=1 STARPU_HOME=$W STARPU_WORKERS_NOBIND=1 STARPU_MAIN_THREAD_NOBIND=1 STARPU_FXT_TRACE=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
g++ -std=gnu++17 -O1 -w -include cmath -I"$D" -I"$R/include" -I"$R/_build/include" \
    -I"$R/external" $(pkg-config --cflags starpu-1.4 2>/dev/null || pkg-config --cflags starpu-1.3) \
    "$D/demo.cc" -o "$W/demo" -L"$R/_build" -Wl,-rpath,"$R/_build" -lnntile \
    $(pkg-config --libs starpu-1.4 2>/dev/null || pkg-config --libs starpu-1.3) -lpthread
timeout 200 "$W/demo"
