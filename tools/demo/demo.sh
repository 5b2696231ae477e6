#!/bin/bash
# Builds and runs demo.rs beside this file against /repo's openraft; exit 0 when the property holds.
. /opt/vp/env.sh
export RUST_BACKTRACE=0 RUST_LOG=off
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap '/bin/rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/harness.rs" "$w/src/"
cp "$here/demo.rs" "$w/src/main.rs"
cp /repo/Cargo.lock "$w/"
cat > "$w/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
openraft = { path = "/repo/openraft", features = ["serde"] }
tokio = { version = "1.22", default-features = false, features = ["macros", "rt", "sync", "time", "test-util"] }
serde = { version = "1.0.114", features = ["derive", "rc"] }
serde_json = "1.0.57"
[profile.dev]
debug = false
[workspace]
T
cd "$w" || exit 2
export CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0
cargo build --offline -q 2> build.log || { tail -30 build.log; exit 2; }
timeout 60 "$w/target/debug/demo"
