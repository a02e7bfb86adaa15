#!/bin/bash
# builds the symbolic execution engine into $1 (default: /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
CF="-O2 -std=c++17 $(llvm-config-18 --cppflags) -w"
g++ $CF -c $D/expr.cpp -o $O/expr.o & P1=$!
g++ $CF -c $D/engine.cpp -o $O/engine.o & P2=$!
wait $P1; wait $P2
g++ $O/expr.o $O/engine.o -o $O/llsym.tmp $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 -lpthread
mv $O/llsym.tmp $O/llsym; rm -f $O/expr.o $O/engine.o
