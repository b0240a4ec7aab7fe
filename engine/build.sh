#!/bin/bash
# builds the engine into $1 (default: ../build)
cd "$(dirname "$0")"; OUT=${1:-../build}; mkdir -p "$OUT"
set -e
CXX="g++ -O2 -std=c++17 -Wno-deprecated-declarations -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
for f in expr solver mem interp models cc; do X=; [ $f = cc ] && X="-O1 -fno-rtti"; $CXX $X -c $f.cpp -o $OUT/$f.o & P="$P $!"; done
for p in $P; do wait $p; done
g++ -rdynamic -o $OUT/symex.tmp $OUT/expr.o $OUT/solver.o $OUT/mem.o $OUT/interp.o $OUT/models.o $OUT/cc.o -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -lz3 -ldl -lpthread
mv $OUT/symex.tmp $OUT/symex
