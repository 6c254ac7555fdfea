#!/bin/bash
# usage: build_cpp.sh OUTDIR [extra flags]; compiles /repo's C++ sources and the harness
set -e
out=$1; mode=${2:-asan}
repo=${REPO:-/repo}
mkdir -p "$out/obj"
case $mode in
  asan) FL="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address -D_GLIBCXX_SANITIZE_VECTOR=1" ;;
  fast) FL="-O2 -g1" ;;
esac
INC="-I$repo/dwave/optimization/include -I/verif/cpp"
{
for f in "$repo"/dwave/optimization/src/*.cpp "$repo"/dwave/optimization/src/nodes/*.cpp; do echo "$f"; done
for f in /verif/cpp/*.cpp; do echo "$f"; done
} > "$out/files"
# biggest first
ls -S $(cat "$out/files") > "$out/files.sorted"
xargs -P 8 -I{} bash -c 'f={}; o='"$out"'/obj/$(echo "$f" | sed "s#/#_#g").o; g++ -std=c++20 -DNDEBUG '"$FL $INC"' -c "$f" -o "$o"' < "$out/files.sorted"
g++ $FL -o "$out/mc" "$out"/obj/*.o
