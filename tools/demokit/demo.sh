#!/bin/bash
set -e
D="$(cd "$(dirname "$0")" && pwd)"
mkdir -p _build/vpdemo
O="$(mktemp -d _build/vpdemo/d.XXXXXX)"
F="-std=c++17 -O1 -w -fopenmp -Isrc -Isrc/tinymesh -Isrc/tinymesh/core -I$D -I/usr/include/eigen3"
g++ $F -c src/tinymesh/core/mesh.cpp -o "$O/mesh.o" &
P=$!
g++ $F -c "$D/demo.cpp" -o "$O/demo.o"
wait $P
g++ -fopenmp "$O/demo.o" "$O/mesh.o" _build/lib/libtinymesh.a -o "$O/demo"
timeout 120 "$O/demo" "$O"
