#!/bin/bash
# try.sh harness [NAME=VALUE ...] [-- symex options]: one symbolic run with cached library bitcode (development aid)
h=$1; shift; d=(); while [ $# -gt 0 ] && [ "$1" != "--" ]; do d+=("-D$1"); shift; done; shift
R=${REPO:-/repo}; B=/tmp/trycache$(echo $R | tr / _); mkdir -p $B
FL="-std=c++11 -O1 -Xclang -disable-llvm-passes -DNDEBUG -DEIGEN_DONT_VECTORIZE -DEIGEN_NO_CPUID -DEIGEN_MAX_CPP_VER=3 -DVP_SYMBOLIC=1 -ffp-contract=off -fno-math-errno -include string -include functional -I$R/include -I/usr/include/eigen3 -I/verif/harness -w -emit-llvm -c -DVP_TOOL(x)=<$R/src/applications/x.cpp>"
export FL B R
[ -z "$NOLIB" ] && find $R/src/ldaplusplus -name '*.cpp' | xargs -P 8 -I{} bash -c 'o=$B/$(echo {} | sed "s|$R/||" | tr / _).bc; if [ ! -e $o ] || [ -n "$(find $R/src $R/include -newer $o -type f | head -1)" ]; then clang++ $FL {} -o $o; fi'
[ $B/rt.bc -nt /verif/harness/rt_stubs.cpp ] || clang++ $FL -fno-builtin /verif/harness/rt_stubs.cpp -o $B/rt.bc
for a in $APPS; do clang++ $SHIM $FL $R/src/applications/$a.cpp -o /tmp/h/app_$a.bc; XBC="$XBC /tmp/h/app_$a.bc"; done
o=/tmp/h/try_$$.bc; clang++ -ferror-limit=3 $SHIM $FL "${d[@]}" /verif/harness/$h $EXTRA -o $o 2>&1 | head -30; [ -e $o ] || exit 2
L="$B/*_*.bc"; [ -n "$NOLIB" ] && L=""
IC=(--intercept 'randint=uniform_int_distribution<.*>::operator\(\)<' --intercept 'randreal=generate_canonical<' --intercept 'digamma=math_utils::digamma<' --intercept 'exp=math_utils::fast_exp<'); [ -n "$NOIC" ] && IC=(); [ -n "$NORND" ] && IC=("${IC[@]:4}")
/verif/build/symex $o $L $B/rt.bc $XBC "${IC[@]}" --out /tmp/h/ev.jsonl --summary /tmp/h/s.json --deadline ${DL:-60} "$@"
grep -v '"ev":"witness"' /tmp/h/ev.jsonl | cut -c1-900 | head -${N:-4}
sed 's/"functions.*//' /tmp/h/s.json; echo
rm -f $o
