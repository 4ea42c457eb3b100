#!/bin/bash
# Builds the two analysers (LLVM 18 libraries, C++) into /verif/.build.  Offline; takes about a minute.
set -e
cd "$(dirname "$0")"
mkdir -p .build
L=/usr/lib/llvm-18/bin
FL="$($L/llvm-config --cxxflags) -fno-rtti -Iengine"
LD="$($L/llvm-config --ldflags) -lLLVM-18"
build() { # name opt
  local src=engine/$1.cpp
  if [ ! -x .build/$1 ] || [ -n "$(find engine -newer .build/$1 -print -quit)" ]; then
    $L/clang++ $2 $FL $src -o .build/$1.tmp $LD
    mv .build/$1.tmp .build/$1
  fi
}
build absint -O2 &
P=$!
build rules -O1
wait $P
