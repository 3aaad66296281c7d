#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -x "$out/symex" ] && [ "$out/symex" -nt "$here/symex.cpp" ] && [ "$out/symex" -nt "$here/core.hpp" ] && [ "$out/symex" -nt "$here/poly.hpp" ]; then exit 0; fi
g++ -std=c++17 -O2 -g1 -w -I/usr/lib/llvm-18/include -I$Z3/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/symex.cpp" -o "$out/symex.tmp$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lgmpxx -lgmp -lpthread
mv "$out/symex.tmp$$" "$out/symex"
