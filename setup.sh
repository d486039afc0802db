#!/bin/bash
# Builds the symbolic executor and the IR of the libstdc++ models.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
bash engine/build.sh
clang++-18 -std=c++14 --gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/9 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-threadsafe-statics -Wno-everything -c -emit-llvm rt/rt_sym.cpp -o build/rt.bc
echo setup done
