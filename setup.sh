#!/bin/bash
# Builds the symbolic executor from the committed sources.
set -e
cd "$(dirname "$0")"
unset LD_LIBRARY_PATH
mkdir -p build evidence
/usr/bin/clang++-18 -std=c++20 -O2 -fno-rtti -w $(/usr/bin/llvm-config-18 --cppflags) engine/irsym.cpp -o build/irsym.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lminisat -lz3 -lpthread
mv build/irsym.tmp build/irsym
