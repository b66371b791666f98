#!/bin/bash
# Build the engine and warm the dependency build (checks rebuild whatever is missing or stale).
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
W=${VERIF_WORK:-$PWD/.work}
mkdir -p "$W"
CARGO_TARGET_DIR=$W/engine-target cargo build --release --offline --quiet --manifest-path engine/Cargo.toml || exit 1
bash bin/build_ir.sh "$W/w" || exit 1
echo setup done
