#!/bin/bash
# builds demo.c against the library built from the current tree and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
INC=$(find "$PWD/amelie" -type d -printf '-I%p ')
clang -w -std=gnu17 -g -O1 $INC -I"$D" "$D/demo.c" _build/libvp_scope.a -o "$T/demo" -rdynamic -lm -lpthread -lssl -lcrypto -lpcre2-8 -lzstd || exit 2
mkdir "$T/run"
cd "$T/run" && timeout -s KILL 100 "$T/demo" "$T/run"
R=$?
exit $R
