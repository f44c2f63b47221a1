#!/bin/bash
# Builds the demonstration against the library that build.sh made of /repo and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
B=$PWD/eskf_vio_backend
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC=$(find "$B/include" -type d -printf '-I%p ')
g++ -std=c++17 -O1 -w -fno-access-control $INC -I/usr/include/eigen3 -I"$D" "$D/demo.cpp" "$B/output/lib_eskf_vio_backend.so" -Wl,-rpath,"$B/output" -o "$T/demo" || exit 3
cd "$T" && timeout 100 ./demo > /dev/null
