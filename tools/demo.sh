#!/bin/bash
# cwd: the repository, after its build. Exit 0 when the behaviour is right.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -I"$repo/include" -I"$here" "$here/demo.cpp" \
    "$repo/_build/libsedaman_static.a" -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
