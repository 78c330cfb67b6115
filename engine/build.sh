#!/bin/bash
# builds the engine (asym) into $1
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}
mkdir -p "$out"
g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -fexceptions -rdynamic "$here/asym.cpp" -o "$out/asym.tmp$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -ldl -lpthread
mv "$out/asym.tmp$$" "$out/asym"
