#!/bin/sh
# make.sh OUTDIR REPO BUILD
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$1"
gcc -shared -fPIC -o "$1/libOpenCL-empty.so" "$here/stub.c"
gcc -O1 -w -o "$1/app" "$here/app.c" "$1/libOpenCL-empty.so" -Wl,-rpath,"$1"
g++ -std=c++17 -O0 -w -fno-rtti -fPIC -shared -o "$1/one.so" "$here/plugin.cpp" -I"$2/src" -I"$3" -I/usr/lib/llvm-20/include
cp "$1/one.so" "$1/two.so"
