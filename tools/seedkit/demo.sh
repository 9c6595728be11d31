#!/bin/bash
# builds the demonstration from the sources of the current directory (the repository) and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
CXX=$(command -v clang++ || command -v g++)
F="-std=c++17 -O0 -DFMT_HEADER_ONLY -w -I$PWD/src -I$PWD/vendor/cppzmq -I$PWD/vendor/spdlog/include"
for f in $(cd src && find . -name '*.cpp' ! -name main.cpp ! -name broker_core.cpp); do
	$CXX $F -c "src/$f" -o "$T/$(echo "$f" | tr '/.' '__').o" &
done
$CXX $F -I"$D" -c "$D/demo.cpp" -o "$T/demo.o" || exit 2
wait
$CXX "$T"/*.o -o "$T/demo" -lyaml-cpp -lzmq -lcurl -lboost_system -lboost_filesystem -lpthread || exit 2
cd "$T" && timeout 120 ./demo
