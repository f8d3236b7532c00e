#!/bin/bash
# builds the symbolic engine into $1
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-/verif/build}; mkdir -p "$O"
LC=/usr/lib/llvm-18/bin/llvm-config; [ -x $LC ] || LC=llvm-config-18
CXX=g++
$CXX -std=c++17 -O2 -w -c "$D/expr.cpp" -o "$O/expr.o" &
$CXX -std=c++17 -O2 -w -I$($LC --includedir) -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$D/symir.cpp" -o "$O/symir.o"
wait
$CXX "$O/symir.o" "$O/expr.o" -o "$O/symir" $($LC --ldflags) $($LC --libs) -lz3 -lutf8proc
rm -f "$O/symir.o" "$O/expr.o"
