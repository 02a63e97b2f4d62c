#!/bin/bash
# Exits 0 if the property holds in this scenario, 1 if it is broken.  Runs with cwd /repo.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/main.rs" "$D/common.rs" "$W/src/"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
foca = { path = "$R", features = ["std", "bincode-codec", "postcard-codec"] }
bytes = "1"
rand = { version = "0.9", default-features = false }
serde = { version = "1", features = ["derive"] }
bincode = { version = "2", default-features = false, features = ["std", "serde"] }
[workspace]
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET
cd "$W"
cargo build --offline -q > build.log 2>&1 || { cat build.log; echo "demo does not build"; exit 3; }
timeout 120 "$W/target/debug/demo" && exit 0
exit 1
