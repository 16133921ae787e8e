#!/bin/bash
# usage: check.sh <property>   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the simulator together with /repo's working tree, then runs the check.
# exit 0: held on everything explored; exit 1: VIOLATION line printed; anything else: error of the check
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
# src/lib.rs has #![deny(unused)]; newer rustc lints on its #[must_use] placement
export RUSTFLAGS="--force-warn unused-attributes"
export RUSTC_WRAPPER="$PWD/tools/rustc-wrap.sh" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/sim/target"
export LSSIM_VERIF="$PWD"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
log=$(mktemp)
if ! (cd sim && cargo build --release --offline --locked) >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the simulator does not build" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec sim/target/release/lssim check "$1"
