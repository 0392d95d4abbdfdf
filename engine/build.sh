#!/bin/bash
# build the symbolic executor against the LLVM that ships with rustc and the system Z3
set -e
cd "$(dirname "$0")"
OUT=${1:-/verif/target/rse}
mkdir -p "$(dirname "$OUT")"
SR=$(RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu rustc --print sysroot)
LIB=$(ls "$SR"/lib/libLLVM.so.* | head -1)
SRCS="main.cpp decode.cpp expr.cpp"
H=$(cat *.cpp *.hpp build.sh | sha256sum | cut -c1-16)-$(basename "$LIB")
if [ -x "$OUT" ] && [ "$(cat "$OUT.hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
for s in $SRCS; do
  clang++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -c $s -o "$OUT.${s%.cpp}.o" &
done
wait
clang++ -O2 "$OUT".main.o "$OUT".decode.o "$OUT".expr.o -o "$OUT" "$LIB" -lz3 -Wl,-rpath,"$SR/lib" -Wl,--allow-shlib-undefined
echo "$H" > "$OUT.hash"
