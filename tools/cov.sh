#!/bin/bash
# cov.sh FEATURE FILES-REGEX HARNESS... — lines of /repo's files the native stand-ins do not reach.
f=$1; re=$2; shift 2
T=/tmp/natcov; cd "$(dirname "$0")/../kani"
RUSTFLAGS="-C instrument-coverage" CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build -q --offline --bin replay --features $f,bnd,std --target-dir $T 2>/dev/null
L=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
rm -f $T/*.profraw
for h in "$@"; do LLVM_PROFILE_FILE=$T/$h.profraw $T/debug/replay search $f::$h 1 5000 | cut -c1-200; done
$L/llvm-profdata merge -o $T/m.profdata $T/*.profraw
$L/llvm-cov show $T/debug/replay -instr-profile=$T/m.profdata --show-instantiations=false $(find /repo/src -name '*.rs' | grep -E "$re") > $T/show.txt
awk '/^\/repo/{f=$0} /\|      0\|/{print f" "$0}' $T/show.txt
