#!/bin/bash
# dbg.sh file fn srcs... : link one harness by hand and run the executor on it (debugging aid)
f=$1; fn=$2; shift 2
X="${X--I/verif/rt/ggdatetime -I/verif/rt/symio}"; A="${A---time 200}"; T=${T-250}
d=$(mktemp -d)
F="-O1 -g1 -Xclang -disable-llvm-passes -emit-llvm -std=c++17 -DDEBUG -DEIGEN_DONT_VECTORIZE -DEIGEN_NO_DEBUG -include string -include utility -include vector -include iostream -include algorithm -include cassert -include cstring -include cmath -w -isystem /usr/include/eigen3 -I/verif/rt -I${VF_REPO:-/repo}/src $X"
clang++ -O1 -g1 -Xclang -disable-llvm-passes -emit-llvm -std=c++17 -w -fno-builtin -D__NO_INLINE__ -I/verif/rt -c /verif/rt/runtime.cpp -o $d/rt.bc || exit
clang++ $F -c /verif/harness/$f.cpp -o $d/h.bc || exit
O=
for s in "$@"; do clang++ $F -c ${VF_REPO:-/repo}/src/$s.cpp -o $d/$s.bc || exit; O="$O $d/$s.bc"; done
case "$X" in *symio*) clang++ $F -c /verif/rt/symio/symio.cpp -o $d/symio.bc || exit; O="$O $d/symio.bc";; esac
llvm-link-18 $d/rt.bc $d/h.bc $O -o $d/l0.bc && opt-18 '-passes=elim-avail-extern,default<O1>' $d/l0.bc -o $d/l.bc
timeout ${T:-300} /verif/build/gsx $d/l.bc --fn $fn --out $d/out.json $A; echo rc $?
[ -f $d/out.json ] && python3 /verif/tools/dbgsum.py $d/out.json; [ -z "$K" ] && rm -r $d
