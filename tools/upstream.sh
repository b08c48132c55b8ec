#!/bin/bash
# upstream.sh REPO OUT: build and run all upstream tests on the craftpp stand-in (objects cached by preprocessed text).
cd "$1" || exit 2; O=$2; C=/tmp/seedcache; mkdir -p "$O" $C
export O C F="-std=gnu++20 -w -O0 -g0 -I/verif/shim -Isrc -Itests -I/usr/src/googletest/googletest/include -I/usr/src/googletest/googletest"
one() { f=$1; i=$O/$(echo $f | tr / _); g++ $F -E -P "$f" -o "$i.i" 2>"$i.log" || { echo "does not compile: $f"; exit 1; }
  h=$(md5sum < "$i.i" | cut -c1-32); rm -f "$i.i"; [ -f $C/$h.o ] || { g++ $F -c "$f" -o $C/$h.$$.o 2>"$i.log" && mv $C/$h.$$.o $C/$h.o || { echo "does not compile: $f"; head -5 "$i.log"; exit 1; }; }
  echo $C/$h.o >> "$O/objs"; }
export -f one
( find src tests -name '*.cpp' | grep -v -e util_binary_view.cpp -e util_error.cpp -e stun_server_stateful_tests.cpp; echo /usr/src/googletest/googletest/src/gtest-all.cc; echo /usr/src/googletest/googletest/src/gtest_main.cc ) | xargs -P 8 -I@ bash -c 'one @' || exit 1
g++ $(sort -u "$O/objs") -o "$O/t" -lcrypto -lpthread && timeout 120 "$O/t" --gtest_brief=1
