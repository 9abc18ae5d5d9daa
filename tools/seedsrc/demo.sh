#!/bin/bash
# Run in the repository's root after a build. Exits 0 if the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
g++ -std=c++17 -O1 -w -pthread -I"$R/include" -I/usr/include/eigen3 "$D/demo.cpp" "$R/_build/libdrift.a" -lyaml-cpp -o demo || exit 2
timeout 120 ./demo > out.txt 2>&1
rc=$?
grep DEMO out.txt
exit $rc
