#!/bin/bash
# cwd: the repository after its build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
M=""
for a in SSE2 SSE41 AVX AVX2 AVX512; do M="$M -DCMT_MULTI_ENABLED_$a=1"; done
clang++-18 -std=gnu++17 -O1 -w -mno-sse3 -msse2 -DCMT_MULTI=1 $M @FLAGS@ -Iinclude "$D/demo.cpp" -o "$T/demo" \
  -Wl,--start-group _build/lib/libkfr_d*_*.a _build/lib/libkfr_io.a -Wl,--end-group -lpthread -lm || exit 4
cd "$T" && @ENV@ ./demo
