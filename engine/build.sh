#!/bin/bash
# builds the engine into $1 (default /verif/build/vfengine)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/vfengine}
mkdir -p "$(dirname "$out")"
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
for f in expr solver engine; do g++ -std=c++17 -O2 -w -fno-rtti -c "$here/$f.cpp" -o "$tmp/$f.o" -I/usr/lib/llvm-18/include & done
wait
g++ "$tmp/expr.o" "$tmp/solver.o" "$tmp/engine.o" -o "$out.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$out.tmp" "$out"
