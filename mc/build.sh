#!/bin/bash
# Build the checker against /repo's current tree; with MC_SINGLE_TERM=1 the one with that feature of openraft.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR=${MC_TARGET:-$PWD/target} CARGO_NET_OFFLINE=true
f=()
[ "$MC_SINGLE_TERM" = 1 ] && { CARGO_TARGET_DIR=$CARGO_TARGET_DIR/single-term; f=(--features single-term); }
# The hook makes internal arithmetic reachable; a tree whose internals no longer fit it is checked without.
RUSTFLAGS="--cfg openraft_mc" cargo build --release --offline "${f[@]}" && exit 0
echo "building without the hook" >&2
exec cargo build --release --offline "${f[@]}"
