#!/bin/bash
# Builds the symbolic executor into /verif/.build/xsym (offline; LLVM 18 + Z3).
set -e
D="$(cd "$(dirname "$0")" && pwd)"; B="${XSYM_BUILD:-$D/../.build}"; mkdir -p "$B"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/lib/libz3.so ] && [ -f $Z/include/z3++.h ]; then ZF="-I$Z/include"; ZL="-L$Z/lib -Wl,-rpath,$Z/lib -lz3"; else ZF=""; ZL="-lz3"; fi
CF="$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//; s/-std=c++17//')"
exec 9>"$B/lock"; flock 9
need=0; [ -x "$B/xsym" ] || need=1
for f in "$D"/*.cpp "$D"/*.hpp; do [ "$B/xsym" -nt "$f" ] || need=1; done
[ $need = 0 ] && exit 0
for f in ops exec; do g++ -std=c++20 -O2 -g0 -fexceptions -Wno-misleading-indentation $CF $ZF -c "$D/$f.cpp" -o "$B/$f.o" & p="$p $!"; done
for q in $p; do wait $q; done
g++ "$B/ops.o" "$B/exec.o" -o "$B/xsym.tmp" $(llvm-config-18 --ldflags) -lLLVM-18 $ZL
mv "$B/xsym.tmp" "$B/xsym"
