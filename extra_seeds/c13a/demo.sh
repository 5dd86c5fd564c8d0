#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
clang++ -std=c++11 -w -O0 -DDEBUG -D_DEBUG -include exception -I/repo/src "$d/demo.cpp" /repo/liblightspeed.a -lpthread -ldl -lrt -o "$w/demo" || exit 3
cd "$w" && timeout 60 ./demo
