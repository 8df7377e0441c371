#!/bin/bash
# Builds the simulator against /repo's working tree with the hooks on
cd "$(dirname "$0")/sim" || exit 2
export RUSTFLAGS="--cfg sett_sim" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
out=$(cargo build --release --offline --quiet 2>&1) || { echo "$out" | tail -40; echo "harness error: build failed"; exit 2; }
