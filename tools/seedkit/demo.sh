#!/bin/sh
# Builds main.rs against the nrbf crate in the current directory and runs it; its exit status is the verdict.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[dependencies]
nrbf = { path = "$repo", features = ["serde"] }
serde = { version = "1", features = ["derive"] }

[workspace]
X
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$d/Cargo.lock"; fi
cd "$d"
CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true cargo build --offline --quiet
timeout 120 "$d/target/debug/demo"
