#!/bin/bash
# Builds the front end (needs the installed clang 18 libraries) into /verif/front/bin.
set -e
cd "$(dirname "$0")"
mkdir -p bin
if [ bin/vfront -nt vfront.cpp ] && bin/vfront 2>&1 | grep -q usage; then exit 0; fi
L=/usr/lib/llvm-18/lib
clang++ -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS \
  -D__STDC_LIMIT_MACROS vfront.cpp -o bin/vfront.tmp.$$ $L/libclang-cpp.so.18.1 $L/libLLVM-18.so -Wl,-rpath,$L
mv bin/vfront.tmp.$$ bin/vfront
