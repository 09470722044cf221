#!/bin/bash
# build and run the stable tests of a scratch copy of the repository: testcopy.sh DIR
set -e
export CCC_OVERRIDE_OPTIONS='# x-Werror' ASAN_OPTIONS=alloc_dealloc_mismatch=0
cd "$1"; B="$1/_build"; mkdir -p "$B"
make -C test -f zpp.mk -j8 mode=debug ZPP_CC=/usr/bin/clang-18 ZPP_CXX=/usr/bin/clang++-18 ZPP_OUTPUT_DIRECTORY_ROOT=../_build/out ZPP_INTERMEDIATE_DIRECTORY_ROOT=../_build/obj ZPP_COMPILE_COMMANDS_JSON=../_build/cc.json > "$B/log" 2>&1 || { echo "BUILD FAILED: $(grep -m1 error: "$B/log" | cut -c1-150)"; exit 1; }
cd test; timeout 300 ../_build/out/debug/default/output --gtest_brief=1 > "$B/tlog" 2>&1 || true
tail -2 "$B/tlog" | tr '\n' ' '
