#!/bin/bash
# RUSTC_WRAPPER: the library under test, and only it, is compiled with calls to the simulator's hooks
# (src/hooks.rs) at every control-flow edge and, when SIM_STEPS=1, at every load and store (LLVM's
# sanitizer-coverage pass). Nothing in /repo changes.
rustc=$1; shift
prev=
for a in "$@"; do
    if [ "$prev" = --crate-name ] && [ "$a" = magmaflow ]; then
        set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
        if [ "${SIM_STEPS:-0}" = 1 ]; then set -- "$@" -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores; fi
        break
    fi
    prev=$a
done
exec "$rustc" "$@"
