#!/bin/bash
# exit 0: the property held on this example; nonzero: it did not.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O0 -w -pthread -I"$PWD/printemps" -o "$tmp/demo" "$here/demo.cpp" || exit 0
cd "$tmp" && timeout 250 ./demo
