#!/bin/bash
# runs the executor over ordinary uses of the standard library and Eigen (no repository code): every part must complete
cd "$(dirname "$0")/.."; FL="-std=c++11 -O1 -Xclang -disable-llvm-passes -DNDEBUG -DEIGEN_DONT_VECTORIZE -DEIGEN_MAX_CPP_VER=3 -DVP_SYMBOLIC=1 -ffp-contract=off -fno-math-errno -include string -include functional -Ishim -I/usr/include/eigen3 -Iharness -w -emit-llvm -c"
t=$(mktemp -d); clang++ $FL -fno-builtin harness/rt_stubs.cpp -o $t/rt.bc
for p in ${@:-0 1 2 3 4 5 6 7 8 9 10 11}; do
clang++ $FL -DPART=$p tools/stl_selftest.cpp -o $t/h.bc && build/symex $t/h.bc $t/rt.bc --out $t/ev --summary $t/s --deadline 60; echo "part $p: $(grep -o '"completed":[0-9]*\|"errors":[0-9]*\|"cands":[0-9]*' $t/s | tr '\n' ' ') $(grep -v witness $t/ev | head -1 | cut -c1-150)"; done; rm -rf "$t"
