#!/bin/bash
# Builds the symbolic executor (engine/vfx) from the committed sources.
set -e
cd "$(dirname "$0")"
mkdir -p ../build
(g++ -std=c++17 -O2 -w -c expr.cpp -o ../build/expr.o) &
(g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -c exec.cpp -o ../build/exec.o) &
wait %1; wait %2
g++ -o ../build/vfx ../build/expr.o ../build/exec.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
