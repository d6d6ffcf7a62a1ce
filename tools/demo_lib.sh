#!/bin/bash
# builds demo.cpp (beside this file) against the run-time library in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
ls src/ber_types/*.cpp src/util/*.cpp > "$T/srcs" || exit 9
g++ -std=c++17 -w -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -Iinclude "$D/demo.cpp" $(cat "$T/srcs") -o "$T/demo" \
    $(pkg-config --libs absl_time absl_strings absl_flat_hash_map absl_flat_hash_set) || exit 1
cd "$T" && TZ=UTC timeout 120 ./demo
