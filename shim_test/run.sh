#!/bin/bash
# Validates /verif/shim: builds the whole library over the shims and runs upstream's own unit tests with it.
# usage: run.sh [REPO] ; needs no network. Prints one line per test.
R=${1:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); B=$(mktemp -d /tmp/shimtest.XXXX); trap 'rm -rf "$B"' EXIT
python3 $V/tools/gen_v1.py $R $B
export F="-g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -I$V/shim -I$R/code -I$R/v1compat/code -I$V/shim_test -I$B -I$R/test" B
ls $R/code/dynamix/*.cpp $R/v1compat/code/dynamix/v1compat/*.cpp | xargs -P8 -I{} sh -c 'g++ -std=c++17 $F -c {} -o $B/lib_$(echo {} | tr / _).o || echo LIBFAIL {}'
gcc -std=c11 $F -c $R/code/dnmx/mixin_common_funcs.c -o $B/lib_c.o
ar rcs $B/lib.a $B/lib_*.o
echo '#define DOCTEST_CONFIG_IMPLEMENT_WITH_MAIN
#include <doctest/doctest.h>' > $B/main.cpp; g++ -std=c++17 $F -c $B/main.cpp -o $B/main.o
t() { src=$1; n=$(basename $src); case $src in *.c) gcc -std=c11 $F -c $src -o $B/$n.o && g++ $F $B/$n.o $B/lib.a -o $B/$n.exe -lpthread;; *) g++ -std=c++17 $F $src $B/main.o $B/lib.a -o $B/$n.exe -lpthread;; esac >$B/$n.log 2>&1 || { echo "NOBUILD $n"; grep -m3 error $B/$n.log; return; }
 if ASAN_OPTIONS=detect_leaks=1 timeout 300 $B/$n.exe >$B/$n.log 2>&1; then echo "PASS $n"; else echo "FAIL $n"; grep -v '^$' $B/$n.log | head -${LINES_:-12}; fi; }
export -f t
ls $R/test/t-*.c* $R/test/v1compat/*.cpp $R/test/fuzz*.cpp | xargs -P8 -I{} bash -c 't {}'
