#!/bin/bash
# Compiles demo.c with the library sources of the current directory (the repository) and runs it.
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w -std=gnu11 -D_GNU_SOURCE -DHAVE_CLOCK_GETTIME=1 -include stdbool.h @SAN@ -I"$R" -I"$R/libmy" "$D/demo.c" @SRC@ -o "$T/demo" -lpthread -lm @LD@ || exit 2
cd "$T" && timeout 60 ./demo
