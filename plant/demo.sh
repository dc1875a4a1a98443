#!/bin/bash
# Run with cwd = the jubako tree. Builds main.rs (beside this file) against it and runs it in a scratch directory.
# Exit 0: behaves as it should.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
repo=$PWD
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/jbkdemo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/scratch" || exit 3
cp "$here"/*.rs "$t/src/" || exit 3
cp "$repo/Cargo.lock" "$t/" 2>/dev/null
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
jubako = { path = "$repo", default-features = false, features = ["lz4", "lzma", "zstd"] }
uuid = "1"
blake3 = "1"
camino = "1"
[profile.dev]
opt-level = 1
debug = false
T
export CARGO_TARGET_DIR="$t/target"
cd "$t" || exit 3
cargo build --offline -q 2>"$t/log" || { tail -20 "$t/log" >&2; exit 3; }
timeout 120 "$t/target/debug/demo" "$t/scratch"
