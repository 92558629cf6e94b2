#!/bin/bash
# RUSTC_WRAPPER of the harness build. The library under test and the workload crate (which
# instantiates the library's generic code) are compiled with LLVM's tsan pass; its entry points
# are provided by the simulator (rt/src/atomics.rs), so every atomic operation is a scheduling point.
prev=""
inst=0
for a in "$@"; do
    if [ "$prev" = "--crate-name" ]; then
        case "$a" in docx_rs | sim) inst=1 ;; esac
    fi
    prev="$a"
done
if [ $inst = 1 ]; then
    exec "$@" -Cpasses=tsan -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-memintrinsics=0
fi
exec "$@"
