#!/bin/sh
# Build the fact extractor into /verif/build (ignored by git).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out="$here/../build"
mkdir -p "$out"
if [ "$out/smx" -nt "$here/smx.cpp" ]; then exit 0; fi
clang++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
  -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/smx.cpp" -o "$out/smx.tmp.$$" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$out/smx.tmp.$$" "$out/smx"
