#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build)
set -e
cd "$(dirname "$0")"
OUT=${1:-../build}
mkdir -p "$OUT"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LC=/usr/lib/llvm-18/bin/llvm-config
if [ -f $Z3/lib/libz3.so ] && [ -f $Z3/include/z3.h ]; then ZI="-I$Z3/include"; ZL="-L$Z3/lib -Wl,-rpath,$Z3/lib -lz3"; else ZI=""; ZL="-lz3"; fi
[ -n "$SYSZ3" ] && { ZI=""; ZL="-lz3"; }
CXX=clang++
FL="-std=c++17 -O2 -frounding-math $ZI -I$($LC --includedir) -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
for f in expr solver exec; do
  if [ "$OUT/$f.o" -ot $f.cpp ] || [ "$OUT/$f.o" -ot expr.hpp ] || [ "$OUT/$f.o" -ot solver.hpp ] || [ "$OUT/$f.o" -ot calls.inc ] || [ "$OUT/$f.o" -ot lia.inc ] || [ ! -f "$OUT/$f.o" ]; then
    $CXX $FL -c $f.cpp -o "$OUT/$f.o" &
  fi
done
wait
$CXX "$OUT/expr.o" "$OUT/solver.o" "$OUT/exec.o" -o "$OUT/gsx" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL
