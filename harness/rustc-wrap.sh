#!/bin/sh
# RUSTC_WRAPPER: instruments only the crate under test, so that the harness can count the edges it
# executes (a deterministic fuel) and see which edges a case reaches (coverage guidance).
rustc="$1"
shift
prev=
for a in "$@"; do
    if [ "$prev" = "--crate-name" ] && [ "$a" = "poly2tri_rs" ]; then
        exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
            -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-prune-blocks=0
    fi
    prev="$a"
done
exec "$rustc" "$@"
