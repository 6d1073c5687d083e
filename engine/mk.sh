#!/bin/bash
# builds the IR fact extractor; usage: mk.sh OUTDIR
set -e
mkdir -p "$1"
/usr/bin/clang++-18 -O1 -std=c++17 -fno-exceptions -fno-rtti -I/usr/lib/llvm-18/include \
	-D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE -w \
	"$(dirname "$0")/irx.cc" -o "$1/irx.$$" -L/usr/lib/llvm-18/lib -lLLVM-18
mv -f "$1/irx.$$" "$1/irx"
