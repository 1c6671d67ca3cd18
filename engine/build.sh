#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build).
set -e
cd "$(dirname "$0")"
OUT=${1:-/verif/build}; mkdir -p "$OUT"
CXX="/usr/bin/clang++-18 -std=c++17 -O2 -g0 -w -fno-rtti -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -D_GNU_SOURCE"
for f in expr solver exec; do $CXX -c $f.cc -o "$OUT/$f.o" 2>&1 & done 2>/dev/null
wait
/usr/bin/clang++-18 -o "$OUT/symx" "$OUT/expr.o" "$OUT/solver.o" "$OUT/exec.o" -lz3 -L/usr/lib/llvm-18/lib -lLLVM-18
