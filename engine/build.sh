#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build).
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
LC=/usr/lib/llvm-18/bin/llvm-config
F="-std=c++20 -O2 -w -fexceptions $($LC --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//')"
g++ -std=c++20 -O2 -w -c "$here/expr.cpp" -o "$out/expr.o" & g++ -std=c++20 -O2 -w -c "$here/solver.cpp" -o "$out/solver.o" &
g++ $F -O2 -c "$here/exec.cpp" -o "$out/exec.o" & g++ $F -O2 -c "$here/weak_enc.cpp" -o "$out/weak_enc.o" & 
clang++ -std=c++20 -O1 -Xclang -disable-llvm-passes -gline-tables-only -w -emit-llvm -c "$here/support.cpp" -o "$out/support.bc" & wait -n; wait -n; wait -n; wait -n; wait -n
g++ "$out/exec.o" "$out/expr.o" "$out/solver.o" "$out/weak_enc.o" -o "$out/cosym" $($LC --ldflags --libs core irreader bitreader demangle) -lz3
python3 - "$here" "$out" <<'P'
import glob, hashlib, os, sys
open(os.path.join(sys.argv[2], "stamp"), "w").write(hashlib.md5(b"".join(open(f, "rb").read() for f in sorted(glob.glob(os.path.join(sys.argv[1], "*"))) if os.path.isfile(f))).hexdigest())
P
