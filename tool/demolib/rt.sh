#!/bin/bash
# run with cwd = the repository, after the build
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
export HOME=$T OCLGRIND_PCH_DIR=$B/include/oclgrind
gcc -std=c99 -O0 -w -DCL_TARGET_OPENCL_VERSION=300 -I"$D" -I"$R/src" "$D/demo.c" -o "$T/demo" -L"$B" -loclgrind-rt -Wl,-rpath,"$B" -lpthread || exit 98
ln -s "$B/liboclgrind-rt.so" "$T/libOpenCL.so"; export LD_LIBRARY_PATH=$T
cd "$T" && timeout 120 ./demo
