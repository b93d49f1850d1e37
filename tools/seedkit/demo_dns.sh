#!/bin/bash
# Compiles demo.cpp with the sources of the current directory (the repository) and small stand-ins for libmtbl and libwdns, and runs it.
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
F="-g -O1 -w -D_GNU_SOURCE -fsanitize=address -fno-omit-frame-pointer -I$D/stub -I$R -I$R/dnstable"; P=""
for f in "$R"/dnstable/*.c; do gcc $F -std=gnu11 -include "$D/stub/config.h" @XF@ -c "$f" -o "$T/dnstable_$(basename "$f").o" & P="$P $!"; done
mkdir "$T/l"; for f in "$R"/libmy/*.c; do case $f in *-test.c|*_test.c|*/test-*) ;; *) gcc $F -std=gnu11 -include "$D/stub/config.h" -c "$f" -o "$T/l/$(basename "$f").o" 2>/dev/null & ;; esac; done
for f in mtbl wdns; do g++ $F -std=c++17 -c "$D/stub/$f.cpp" -o "$T/$f.o" & P="$P $!"; done
[ -f "$D/extra.c" ] && { gcc $F -std=gnu11 -include "$D/stub/config.h" -c "$D/extra.c" -o "$T/extra.o" & P="$P $!"; }
g++ $F -std=c++17 -I"$D" -c "$D/demo.cpp" -o "$T/demo.o" & P="$P $!"
for p in $P; do wait $p || exit 2; done; wait; ar rcs "$T/l.a" "$T"/l/*.o || exit 2
g++ -fsanitize=address "$T"/*.o "$T/l.a" -o "$T/demo" -lz -lpthread @LD@ || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=@LEAK@ timeout 60 ./demo
