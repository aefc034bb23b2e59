#!/bin/bash
# build.sh HARNESS [flavour]: compiles /repo's library sources and one harness from the working tree
# flavours: plain (default), asan, cov (trace-pc), tsan
set -e
V=$(cd "$(dirname "$0")" && pwd); R=${VERIF_REPO:-/repo}; H=$1; FL=${2:-plain}
B=$V/build/$FL; mkdir -p "$B/obj"
CXX=g++; LF=""
case $FL in
 plain) XF="-O1 -g1";;
 asan) XF="-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer";;
 cov) XF="-O1 -g1"; LF="-fsanitize-coverage=trace-pc";;
 tsan) XF="-O1 -g1 -fsanitize=thread";;
esac
INC="-I$R/src/include -I$R/src/src"
# content hash decides what is rebuilt: a changed tree is always recompiled
key() { { echo "$CXX $XF $LF $INC"; cat "$1"; find "$R/src/include" "$R/src/src" -name '*.h' | sort | xargs cat; } | sha256sum | cut -c1-20; }
pids=()
objs=()
for f in $(ls "$R"/src/src/*.cpp | sort); do
  k=$(key "$f"); o=$B/obj/$(basename "$f" .cpp)-$k.o; objs+=("$o")
  if [ ! -s "$o" ]; then rm -f "$B/obj/$(basename "$f" .cpp)"-*.o; ( $CXX -std=gnu++17 -w $XF $LF $INC -c "$f" -o "$o.tmp$$" && mv "$o.tmp$$" "$o" ) & pids+=($!); fi
done
hk=$({ echo "$CXX $XF"; cat "$V"/harness/*.h "$V/harness/$H.cpp"; find "$R/src/include" -name '*.h' | sort | xargs cat; } | sha256sum | cut -c1-20); ho=$B/obj/h-$H-$hk.o
if [ ! -s "$ho" ]; then rm -f "$B/obj/h-$H"-*.o; ( $CXX -std=gnu++17 -w $XF -I$V/harness -I$R/src/include -c "$V/harness/$H.cpp" -o "$ho.tmp$$" && mv "$ho.tmp$$" "$ho" ) & pids+=($!); fi
for p in "${pids[@]}"; do wait $p; done
$CXX $XF "$ho" "${objs[@]}" -o "$B/$H.tmp$$" -lpthread -ldl
mv "$B/$H.tmp$$" "$B/$H"
