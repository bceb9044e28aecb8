#!/bin/bash
# RUSTC_WRAPPER: compiles the crates under test (and the shim that instantiates their generics)
# with a callback on every branch, load and store. The callbacks are the simulator's scheduling
# and fault points (src/kernel.rs). Everything else is compiled as usual.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && { name="$a"; break; }
  prev="$a"
done
case "$name" in
  poseidon377|poseidon_parameters|poseidon_permutation|poseidon_shim)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
