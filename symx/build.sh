#!/bin/bash
# Builds the symbolic executor into /verif/build (ignored by git).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
[ ../build/symx -nt symx.cpp ] && [ ../build/symx -nt blast.h ] && exit 0
g++ -std=c++17 -O2 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS \
  -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS symx.cpp -o ../build/symx.$$ \
  -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lminisat
mv ../build/symx.$$ ../build/symx
