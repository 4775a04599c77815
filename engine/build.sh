#!/bin/bash
# Builds the symbolic execution engine into $1 (default /verif/build).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXXF="-std=c++17 -O2 -g0 -w -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -I$Z3/include -D__STDC_LIMIT_MACROS -D__STDC_CONSTANT_MACROS"
for f in expr solver exec; do g++ $CXXF -c "$here/$f.cpp" -o "$out/$f.o" & done
wait
for f in expr solver exec; do [ -e "$out/$f.o" ] || exit 1; done
g++ "$out"/expr.o "$out"/solver.o "$out"/exec.o -o "$out/symx.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out/symx.tmp" "$out/symx"
