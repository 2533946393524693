#!/bin/bash
# Builds the symbolic executor into /verif/build (or $1).
set -euo pipefail
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
if [ -x "$out/symex" ] && [ -z "$(find "$here" -newer "$out/symex" -name '*.[ch]*' -print -quit)" ]; then exit 0; fi
LLVM=$(command -v llvm-config-18 || command -v llvm-config)
FLAGS="-std=c++17 -O2 -fexceptions -w $($LLVM --cppflags)"
(clang++-18 $FLAGS -c "$here/expr.cpp" -o "$out/expr.o") & p=$!
clang++-18 $FLAGS -c "$here/symex.cpp" -o "$out/symex.o"
wait $p
clang++-18 "$out/symex.o" "$out/expr.o" -o "$out/symex.tmp" $($LLVM --ldflags) -lLLVM-18 -lz3
mv "$out/symex.tmp" "$out/symex"
