#!/bin/bash
# builds the symbolic execution engine into $1 (default /verif/build/symex)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build/symex}; mkdir -p "$(dirname "$O")"
CF="-std=c++17 -O2 -w -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//')"
T=$(mktemp -d)
for f in exec expr loader; do g++ $CF -c $D/$f.cpp -o $T/$f.o & done; wait
g++ $T/exec.o $T/expr.o $T/loader.o -o "$O.tmp.$$" $(llvm-config-18 --ldflags --libs core irreader bitreader support) -lz3
mv "$O.tmp.$$" "$O"; rm -rf "$T"
