#!/bin/bash
# usage: run in the repository root.  Compiles the real source files named in `sources` with the third-party stand-ins of kit.tgz.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
tar xzf "$D/kit.tgz" -C "$W" && DINGO_SRC=$PWD/src python3 "$W/shim/pbgen.py" "$W/gen" || exit 0
FL="-std=c++17 -O1 -w -DNDEBUG -fno-access-control -ffunction-sections -fno-pie -I$W/rt -I$W/gen -I$W/shim -Isrc -I$W/harness -include shim_std.h"
i=0; for s in $(grep -v '^#' "$D/sources"); do i=$((i+1)); x=""; case $s in tsan:*) s=${s#tsan:}; x="-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0";; esac; clang++-18 $FL $x -c src/$s -o $W/o$i.o & done
for s in $W/gen/proto/pb_bodies_*.cc; do i=$((i+1)); clang++-18 $FL -O0 -c $s -o $W/o$i.o & done
for s in "$D/demo.cc" $W/rt/demo_rt.cc $W/rt/shim_rt.cc $W/rt/sched.cc; do i=$((i+1)); clang++-18 $FL -c $s -o $W/o$i.o & done; wait
clang++-18 $W/o*.o -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -no-pie -o $W/demo || { echo "demonstration does not build"; exit 2; }
cd "$W" && ./demo
