#!/bin/bash
# build.sh [rel|dbg|lite|mid|dflt|lal]: builds the simulator with /repo's crates, instrumented.
#   rel   std, arkworks 64-bit arithmetic, r1cs; no debug assertions
#   dbg   the same with debug assertions and overflow checks in every crate
#   lite  no std, no alloc, no arkworks: the 32-bit no_std arithmetic; native calls only
#   mid   std without arkworks: 32-bit arithmetic, debug assertions and overflow checks; native calls only
#   dflt  the features poseidon377 has by default: arkworks without circuits, the other crates no_std
#   lal   no std but alloc: 32-bit arithmetic, debug assertions and overflow checks; native calls only
cd "$(dirname "$0")" || exit 2
V="${1:-rel}"; shift
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
T="$PWD/target/$V"; mkdir -p "$T"
exec 9>"$T/.lock"; flock 9
# Cargo trusts file times; a restored or patched copy of /repo may not move them. Compare contents.
sum=$( { cat rustc-wrap.sh Cargo.toml Cargo.lock shim/Cargo.toml shim/src/*.rs src/*.rs
         cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name 'Cargo.toml' \) -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum )
D=(--release --config profile.release.debug-assertions=true --config profile.release.overflow-checks=true
   --config profile.release.package.poseidon377.opt-level=0 --config profile.release.package.poseidon-permutation.opt-level=0
   --config profile.release.package.poseidon-parameters.opt-level=0 --config profile.release.package.poseidon_shim.opt-level=0)
case "$V" in
  rel)  A=(--release) ;;
  dbg)  A=("${D[@]}") ;;
  mid)  A=("${D[@]}" --no-default-features --features mid) ;;
  lal)  A=("${D[@]}" --no-default-features --features lal) ;;
  dflt) A=(--release --no-default-features --features dflt) ;;
  lite) A=(--release --no-default-features) ;;
  *) echo "unknown variant $V" >&2; exit 2 ;;
esac
if [ "$(cat "$T/.sum" 2>/dev/null)" != "$sum" ]; then
  rm -f "$T/.sum"
  cargo clean --release --offline --target-dir "$T" -p poseidon377 -p poseidon-parameters -p poseidon-permutation -p poseidon_shim -p psim >/dev/null 2>&1
fi
cargo build --offline --target-dir "$T" "${A[@]}" "$@" || exit 1
echo "$sum" > "$T/.sum"
