#!/bin/bash
# run with cwd = the repository, after the build
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
export HOME=$T OCLGRIND_PCH_DIR=$B/include/oclgrind
g++ -std=c++17 -O0 -w -fno-rtti -I"$D" -I"$B" -I"$R/src" -I/usr/lib/llvm-20/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/demo.cpp" -o "$T/demo" -L"$B" -loclgrind -Wl,-rpath,"$B" -L/usr/lib/llvm-20/lib -lLLVM -lpthread || exit 98
cd "$T" && timeout 120 ./demo
