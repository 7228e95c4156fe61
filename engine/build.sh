#!/bin/bash
# builds the executor into /verif/build (ignored by git)
set -e
cd "$(dirname "$0")"
mkdir -p ../build
newest=$(ls -t *.cpp *.h *.inc | head -1)
if [ -x ../build/symex ] && [ ../build/symex -nt "$newest" ]; then exit 0; fi
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXXFLAGS="-O2 -std=c++17 -w -I$Z3/include -I/usr/lib/llvm-18/include -I/usr/include/llvm-18"
g++ $CXXFLAGS -c ops.cpp -o ../build/ops.o &
g++ $CXXFLAGS -c symex.cpp -o ../build/symex.o &
wait %1; wait %2
g++ ../build/ops.o ../build/symex.o -o ../build/symex.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z3/lib -Wl,-rpath,$Z3/lib -lz3 -ldl -lpthread
mv ../build/symex.tmp ../build/symex
