#!/bin/bash
# compile.sh SRC OUT.bc [extra flags]: LLVM bitcode of a harness plus the library's current headers
src=$1; out=$2; shift 2; repo=${COECS_REPO:-/repo}
clang++ -std=c++20 -O1 -Xclang -disable-llvm-passes -gline-tables-only -w -fno-vectorize -fno-slp-vectorize -I"$repo/include" -I"$(dirname "$0")/../harness" "$@" -emit-llvm -c "$src" -o "$out.raw" || exit 1
sup=${COSYM_BUILD:-$(dirname "$0")/../build}/support.bc
if [ -f "$sup" ]; then llvm-link -internalize -only-needed "$out.raw" "$sup" -o "$out.lnk" 2>/dev/null && mv "$out.lnk" "$out.raw"; fi
opt -passes='function(sroa,early-cse,simplifycfg)' "$out.raw" -o "$out" && rm -f "$out.raw"
