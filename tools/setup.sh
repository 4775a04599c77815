#!/bin/bash
# Builds the symbolic execution engine and the C/C++ runtime bodies into /verif/build.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build" "$V/evidence" "$V/work"
rtflags="-std=c++17 -O1 -include $V/rt/noext.h -fno-vectorize -fno-slp-vectorize -fno-access-control -fno-builtin -w -emit-llvm -c -D_GLIBCXX_GTHREAD_USE_WEAK=0"
(clang++-18 $rtflags "$V/rt/rt.cpp" -o "$V/build/rt.bc.tmp" && mv "$V/build/rt.bc.tmp" "$V/build/rt.bc") &
p=$!
bash "$V/engine/build.sh" "$V/build"
wait $p
