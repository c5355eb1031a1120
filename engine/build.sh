#!/bin/bash
# Builds the symbolic executor into $1.
set -euo pipefail
cd "$(dirname "$0")"
out=${1:?usage: build.sh OUT}
tmp=$(mktemp -d "$(dirname "$out")/symex-build.XXXXXX")
FL="$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -O2 -std=c++17 -Wall"
clang++-18 $FL -c expr.cpp -o "$tmp/expr.o" &
p=$!
clang++-18 $FL -c symex.cpp -o "$tmp/symex.o"
wait $p
clang++-18 "$tmp/expr.o" "$tmp/symex.o" -o "$tmp/symex" -L"$(llvm-config-18 --libdir)" -lLLVM-18 -lz3
mv -f "$tmp/symex" "$out"
rm -rf "$tmp"
