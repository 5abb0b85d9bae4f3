#!/bin/sh
# Builds the AST exporter into build/ if it is missing or older than its source.
cd "$(dirname "$0")/.." || exit 2
mkdir -p build
exec 9>build/.lock
flock 9
if [ ! -x build/astx ] || [ tools/astx/astx.cpp -nt build/astx ]; then
    clang++-18 -O1 -fno-rtti -w $(llvm-config-18 --cxxflags) tools/astx/astx.cpp -o build/astx.tmp \
        -L/usr/lib/llvm-18/lib /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib || exit 2
    mv build/astx.tmp build/astx
fi
