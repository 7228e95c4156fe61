#!/bin/bash
# builds the walk against the sources in the current directory and runs it
H=$(cd "$(dirname "$0")" && pwd); P=$1; N=$2; shift 2
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-O1 -std=c++11 -w -ffunction-sections -fdata-sections -include $H/demo_rng.h -Isrc -I/usr/include/python3.12 -I/usr/lib/python3/dist-packages/numpy/core/include"
for f in src/module/markov/markov.cpp src/module/markov/gamma3_updates.cpp src/module/diagram/diagram.cpp src/module/diagram/component.cpp src/module/diagram/component_bundle.cpp src/utility/momentum.cpp src/utility/rng.cpp src/utility/complex.cpp src/utility/vector.cpp src/lattice/lattice.cpp $H/mkwalk.cpp; do
  g++ $F -c $f -o $T/$(basename $f).o & done; wait
g++ $T/*.o -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -o $T/walk || exit 0
for s in 1 2 3; do (cd $T && timeout 90 ./walk $P $N $s "$@" > out$s 2>&1); r=$?; tail -3 $T/out$s; [ $r -eq 0 ] || exit 1; done
exit 0
