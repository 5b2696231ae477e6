#!/bin/bash
# Build the store checker against /repo's current tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR=${ST_TARGET:-$PWD/target} CARGO_NET_OFFLINE=true
# RocksDB itself (not part of the repository) takes minutes to compile: take the one /repo's build made, if any.
d=$(ls -td /repo/target/debug/build/librocksdb-sys-*/out 2>/dev/null | head -1)
if [ -f "$d/librocksdb.a" ] && [ -f "$d/libsnappy.a" ]; then
    export ROCKSDB_LIB_DIR=$d SNAPPY_LIB_DIR=$d ROCKSDB_STATIC=1 SNAPPY_STATIC=1
fi
exec cargo build --release --offline "$@"
