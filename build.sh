#!/bin/bash
# Builds everything the checks need from /repo's working tree, into /verif/build.
# Safe to run again: cargo rebuilds what changed.
set -u
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
B=$V/build
mkdir -p "$B" || exit 2
exec 9>"$B/lock"; flock 9
export FORMAT_TESTS=false CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
unset RUSTC_WRAPPER CARGO_TARGET_DIR
for d in /usr/lib/llvm-*/lib; do [ -z "${LIBCLANG_PATH:-}" ] && ls "$d"/libclang*.so* >/dev/null 2>&1 && export LIBCLANG_PATH=$d; done
run() { local log=$1; shift; "$@" >"$B/$log.log" 2>&1 9>&- || { echo "build of $log failed:" >&2; tail -40 "$B/$log.log" >&2; return 1; }; }
pids=()
run shim gcc -O2 -Wall -shared -fPIC -o "$B/libsimshim.so.new" "$V/sim/shim/shim.c" -ldl && mv "$B/libsimshim.so.new" "$B/libsimshim.so" || exit 2
run stub gcc -O2 -o "$B/stub.new" "$V/sim/shim/stub.c" && mv "$B/stub.new" "$B/stub" || exit 2
( CARGO_TARGET_DIR=$B/subject run subject cargo build --offline --manifest-path "$V/subject/Cargo.toml" ) & pids+=($!)
( RUSTC_WRAPPER=$V/tools/rustc-wrapper.sh CARGO_TARGET_DIR=$B/sim run sim cargo build --offline --manifest-path "$V/sim/Cargo.toml" ) & pids+=($!)
( RUSTC_WRAPPER=$V/tools/rustc-wrapper.sh CARGO_TARGET_DIR=$B/sim-onig run sim-onig cargo build --offline --features oniguruma --manifest-path "$V/sim/Cargo.toml" ) & pids+=($!)
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=2; done
exit $rc
