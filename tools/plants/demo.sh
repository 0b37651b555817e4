#!/bin/bash
# Builds the demonstration against the tree in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "${t:?}"' EXIT
mkdir "$t/src" && cp "$d/demo.rs" "$t/src/main.rs" && cp "$d/kit.rs" "$t/src/kit.rs" || exit 2
[ -e "$r/Cargo.lock" ] && cp "$r/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
async-io = { path = "$r" }
futures-lite = "2"
libc = "0.2"
[patch.crates-io]
async-io = { path = "$r" }
X
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg=rustix_use_libc"
cd "$t" || exit 2
cargo build --offline -q 2>build.log || { cat build.log; exit 2; }
timeout 120 ./target/debug/demo
