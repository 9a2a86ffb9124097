#!/bin/bash
# builds the symbolic executor (LLVM 18 + Z3) into $1
set -e
D="$(cd "$(dirname "$0")" && pwd)"; O="${1:-$D/../build/engine}"; mkdir -p "$O"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ ! -f $Z/include/z3.h ]; then ZI=""; ZL="-lz3"; else ZI="-I$Z/include"; ZL="-L$Z/lib -lz3 -Wl,-rpath,$Z/lib"; fi
pids=()
for f in expr solver decode exec builtins main; do
  g++ -std=c++20 -O2 -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS $ZI -c "$D/$f.cpp" -o "$O/$f.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ -o "$O/symx.tmp" "$O"/{expr,solver,decode,exec,builtins,main}.o -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL
mv "$O/symx.tmp" "$O/symx"
