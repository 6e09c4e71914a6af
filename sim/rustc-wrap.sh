#!/bin/bash
# Compile the crate under test with a call at every basic block edge, so that
# the simulator can count steps and switch threads inside it. Code generation
# only: the source and its behaviour are unchanged.
rustc="$1"
shift
prev=
for a in "$@"; do
    if [ "$prev" = --crate-name ] && [ "$a" = upon ]; then
        exec "$rustc" "$@" -Cpasses=sancov-module \
            -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
            -Cllvm-args=-sanitizer-coverage-pc-table
    fi
    prev="$a"
done
exec "$rustc" "$@"
