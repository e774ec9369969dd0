#!/bin/bash
# RUSTC_WRAPPER for the scheduled build (P08): every edge of the code under test, and of the parts
# of it that are instantiated in the simulator, calls back, and so does every load and store.
crate=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && crate=$a
    prev=$a
done
case $crate in
fajt_macros | build_script_build) ;;
fajt_*)
    set -- "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard \
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores
    ;;
esac
exec "$@"
