#!/bin/bash
# builds the extractor; arg 1 = output binary
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18/lib
CPP=$(ls $L/libclang-cpp.so* | head -1)
LL=$(ls $L/libLLVM-18.so $L/libLLVM.so 2>/dev/null | head -1)
clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w hfx.cpp -o "$1" "$CPP" "$LL" -Wl,-rpath,$L
