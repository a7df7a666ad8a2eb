#!/bin/bash
# exit 0: behaves; non-zero: broken. Run with cwd /repo after the build.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
OM=/usr/lib/x86_64-linux-gnu/openmpi/include
g++ -std=c++17 -w  -DKOKKOS_DEPENDENCE -I"$R/src" -I"$R/_build/src" -I"$R/_build/src/grid" -I"$R/_build/src/grid/iteration" \
  -isystem $OM -isystem $OM/openmpi -isystem /usr/include/hdf5/openmpi -isystem /usr/include/trilinos "$D/demo.cpp" -o "$T/demo" \
  -L"$R/_build" -lschnek -Wl,-rpath,"$R/_build" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lmpi -ltrilinos_kokkoscore -ldl || exit 2
cd "$T" && timeout 120 mpirun --allow-run-as-root --oversubscribe -n 3 ./demo
