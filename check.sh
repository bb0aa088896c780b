#!/bin/bash
# usage: check.sh ID [quick|thorough]  -- builds the harness against /repo's working tree, then decides property ID
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$here/target VERIF_DIR=$here
export RUSTFLAGS="" CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cd "$here/harness" || exit 2
if ! log=$(cargo build --locked 2>&1); then echo "$log" | tail -60; echo "harness build failed"; exit 2; fi
[ "${1:-}" = build ] && exit 0
exec "$here/target/debug/vharness" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
