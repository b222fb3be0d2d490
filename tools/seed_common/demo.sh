#!/bin/bash
# Builds the demonstration against the library built in /repo and runs it in
# a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo-XXXXXX) || exit 99
trap 'rm -rf -- "${d:?}"' EXIT
g++ -std=c++17 -O1 -w -I/repo/include -isystem /opt/vp/compat/include "$here/demo.cc" -o "$d/demo" \
    -L/repo/_build/mlio/lib -lmlio -lz -lpthread -Wl,-rpath,/repo/_build/mlio/lib || exit 98
cd "$d" && timeout 120 ./demo
