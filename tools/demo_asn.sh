#!/bin/bash
# compiles demo.asn (beside this file) with the ASN.1 compiler built from the current directory, then demo.cpp, and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
R=$PWD
./_build/src/fast_ber_compiler "$D"/demo.asn "$T/demo_gen" || exit 1
g++ -std=c++17 -w -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -I"$T" -Iinclude "$D/demo.cpp" src/ber_types/*.cpp src/util/*.cpp -o "$T/demo" \
    $(pkg-config --libs absl_time absl_strings absl_flat_hash_map absl_flat_hash_set) || exit 1
cd "$T" && TZ=UTC timeout 120 ./demo
