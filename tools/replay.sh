#!/bin/bash
# replay.sh ID ENTRY INPUTFILE: run one recorded input on the real code.
V=$(cd "$(dirname "$0")/.." && pwd); R=${SX_REPO:-/repo}
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
std=$(sed -n 's/^\/\/! std //p' "$V/harness/$1.cpp"); cxx=$(sed -n 's/^\/\/! cxx //p' "$V/harness/$1.cpp")
g++-9 -std=${std:-c++14} -O1 -g -msse4 -w -DSX_NATIVE -fsanitize=address -ffp-contract=off -pthread -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks $cxx -I$R -I$R/datas -I"$V/harness" "$V/harness/$1.cpp" "$V/harness/native.cpp" -o "$t/n" || exit 2
ASAN_OPTIONS=detect_leaks=0 "$t/n" "$2" "$3"
