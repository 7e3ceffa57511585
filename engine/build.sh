#!/bin/bash
# Builds the symbolic engine into $1 (default: /verif/build/symx)
set -e
D="$(cd "$(dirname "$0")" && pwd)"
OUT="${1:-$D/../build/symx}"
mkdir -p "$(dirname "$OUT")"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
FL="-std=c++17 -O2 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE -w"
for f in expr solver exec interp cache main; do
  g++ $FL -c "$D/$f.cpp" -o "$T/$f.o" &
done
for j in $(jobs -p); do wait $j; done
g++ "$T"/*.o -o "$OUT.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$OUT.tmp.$$" "$OUT"
