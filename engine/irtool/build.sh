#!/bin/bash
# build.sh OUT : compile irtool
set -e
d=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$(dirname "$1")"
clang++-18 -O1 -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions "$d/irtool.cpp" -o "$1.tmp.$$" $(llvm-config-18 --ldflags --libs --system-libs)
mv "$1.tmp.$$" "$1"
