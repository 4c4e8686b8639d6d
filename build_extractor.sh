#!/bin/bash
# builds the AST extractor (clang libTooling) into /verif/build
set -e
D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$D/build"
if [ "$D/build/extract" -nt "$D/extractor/extract.cpp" ]; then exit 0; fi
/usr/bin/g++ -std=c++17 -O1 -DNDEBUG -fno-rtti -I/usr/lib/llvm-18/include "$D/extractor/extract.cpp" -o "$D/build/extract.tmp" \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$D/build/extract.tmp" "$D/build/extract"
