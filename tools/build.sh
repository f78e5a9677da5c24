#!/bin/bash
# builds the extractor into $1 (needs the installed clang-18 development files)
set -e
out=${1:?}
here=$(cd "$(dirname "$0")" && pwd)
L=/usr/lib/llvm-18/lib
/usr/bin/g++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/cxx2json.cpp" -o "$out.tmp.$$" \
  "$L/libclang-cpp.so.18.1" "$L/libLLVM.so.1"
mv "$out.tmp.$$" "$out"
