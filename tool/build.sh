#!/bin/bash
# builds the fact extractor (offline); $1 = output binary
set -e
L=/usr/lib/llvm-20
g++ -O1 -std=c++17 -fno-rtti -fno-exceptions $($L/bin/llvm-config --cppflags) \
  "$(dirname "$0")/irdump.cpp" -o "$1.tmp.$$" -L$L/lib -lLLVM-20 -Wl,-rpath,$L/lib
mv "$1.tmp.$$" "$1"
