#!/bin/bash
# Builds the AST exporter (clang 18 libTooling) from the committed sources into /verif/build.
set -e
cd "$(dirname "$0")"
mkdir -p build
L=/usr/lib/llvm-18
g++ -std=c++17 -O1 -fno-rtti -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  tool/exporter.cpp -o build/cnx.tmp $L/lib/libclang-cpp.so.18.1 -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
mv build/cnx.tmp build/cnx
echo "built build/cnx"
