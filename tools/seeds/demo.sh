#!/bin/bash
# Run in the repository root after a build. Exit 0: the behaviour is right; anything else: it is broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/usr/local/cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
work=$(mktemp -d)
trap 'find "$work" -delete' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
uwuhi = { path = "$repo" }
@ASYNC@
[workspace]
EOF
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cd "$work" || exit 2
cargo build --offline -q || exit 2
@RUN@
