#!/bin/bash
# Builds the simulator against the current tree of parcom (/repo, or $PSIM_REPO).
set -e
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
root=$(cd "$(dirname "$0")/.." && pwd)
repo=${PSIM_REPO:-/repo}
out=${PSIM_BUILD:-$root/build}
# The directory is named after the contents, so that cargo sees a change of the facade.
std=$out/std/$(sha256sum "$root/sim/simstd/lib.rs" | cut -c1-16)
mkdir -p "$std" "$out/crate"
if [ ! -f "$std/libparcom_sim_std.rlib" ]; then
  rustc --edition 2021 --crate-type rlib --crate-name parcom_sim_std -O -A warnings \
    -o "$std/libparcom_sim_std.rlib" "$root/sim/simstd/lib.rs"
fi
src=$root/sim
if [ "$repo" != /repo ]; then
  # another tree: the same harness with its path dependencies redirected
  rm -rf "$out/crate/sim"; mkdir -p "$out/crate/sim"
  cp -a "$src/." "$out/crate/sim/"
  sed -i "s#\"/repo/#\"$repo/#" "$out/crate/sim/Cargo.toml"
  src=$out/crate/sim
fi
export CARGO_TARGET_DIR=$out/target
export RUSTFLAGS="--cfg parcom_sim --cfg parcom_sim_std --extern parcom_sim_std=$std/libparcom_sim_std.rlib -L $std -A warnings ${PSIM_RUSTFLAGS:-}"
cd "$src"
cargo build --offline --quiet --target x86_64-unknown-linux-gnu
