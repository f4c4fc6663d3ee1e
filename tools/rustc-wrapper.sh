#!/bin/sh
# RUSTC_WRAPPER: instruments the transpiler's own library (and nothing else) with coverage
# callbacks, which are the simulator's scheduling points.
rustc="$1"; shift
case " $* " in
*" --crate-name jst "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores -C codegen-units=1 ;;
*) exec "$rustc" "$@" ;;
esac
