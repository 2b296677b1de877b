#!/bin/bash
# Builds the fact extractor into $1 (a file).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:?}
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/arcdump.cpp" -o "$out.tmp.$$" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out.tmp.$$" "$out"
