#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree
# and decides one property. Exit 0 held, 1 violated, anything else an error.
cd "$(dirname "$0")/harness" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
log=$(cargo build --release --offline 2>&1) || { printf '%s\n' "$log" | tail -60 >&2; echo "ERROR: build failed" >&2; exit 2; }
exec ./target/release/harness run "$1" "$tier"
