#!/bin/bash
# exit 0: behaviour as documented; nonzero: broken.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
ln -s "$repo" "$w/bezman"
g++ -std=c++17 -O1 -w -fsanitize=address -I"$w" "$here/demo.cpp" -o "$w/demo" || exit 4
cd "$w" && timeout 60 ./demo
