#!/bin/bash
# RUSTC_WRAPPER of the simulator's build: linestring, and the crate that instantiates its generic
# functions, are compiled with LLVM's ThreadSanitizer pass; its callbacks are the simulator's yield
# points (sim/core/src/atomics.rs), no sanitizer run time is linked.
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
case $name in
linestring | lssim)
    export RUSTC_BOOTSTRAP=1
    exec "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
        -Cllvm-args=-tsan-instrument-func-entry-exit=0
    ;;
esac
exec "$@"
