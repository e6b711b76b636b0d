#!/bin/bash
# Usage: build_lube.sh [target ...]
# Builds libube (and the named module targets) from /repo's current working
# tree with AddressSanitizer, in /verif/build: nothing is written to /repo.
# The flags are those of /opt/vp/build.sh (so asserts are compiled out as in
# the real build) with -fsanitize=address and -O1 on top.
set -e
export LANG="${LANG:-C.UTF-8}" CC=/usr/bin/gcc CXX=/usr/bin/g++
unset MKLROOT
V="$(cd "$(dirname "$0")/.." && pwd)"
R="${VERIF_REPO:-/repo}"
B="${VERIF_BUILD:-$V/build}"
mkdir -p "$B/src" "$B/lib"
rsync -rlpc --delete --exclude /.git --exclude /_build --exclude /build \
      --exclude /kiss_fft130 --exclude /test/test.wav "$R/" "$B/src/"
mkdir -p "$B/src/kiss_fft130"
[ -e "$B/src/test/test.wav" ] || : > "$B/src/test/test.wav"
if [ ! -e "$B/lib/build.ninja" ]; then
    cmake -S "$B/src" -B "$B/lib" -G Ninja \
      -DCMAKE_BUILD_TYPE=RelWithDebInfo \
      -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ \
      -DCMAKE_CXX_FLAGS="-Wno-error -w -isystem /usr/include/mkl" \
      -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O1 -g1 -DNDEBUG -fsanitize=address -fno-omit-frame-pointer" \
      -DBLA_VENDOR=Intel10_64lp_seq \
      -DCMAKE_DISABLE_FIND_PACKAGE_Qwt=ON \
      > "$B/cmake.log" 2>&1 || { cat "$B/cmake.log"; exit 2; }
fi
ninja -C "$B/lib" lube-shared "$@" > "$B/ninja.log" 2>&1 || { tail -50 "$B/ninja.log"; exit 2; }
