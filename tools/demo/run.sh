#!/bin/bash
# build the library from the current directory's sources and run demo.cpp; the demo exits 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo_XXXXXX); trap 'rm -rf "$T"' EXIT
for f in "$R"/src/*.cpp; do echo "$f"; done | xargs -P8 -I{} sh -c 'g++ -w -O0 FLAGS -I"'"$R"'"/src -c {} -o "'"$T"'"/$(basename {}).o' || exit 3
g++ -w -O0 FLAGS -std=gnu++17 -I"$R"/src "$D"/demo.cpp "$T"/*.o -o "$T"/demo || exit 3
DATA
cd "$T" && timeout 120 ./demo "$T"/data
