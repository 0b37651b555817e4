#!/bin/bash
# Build the simulator against /repo's current working tree.
cd "$(dirname "$0")" || exit 3
export RUSTFLAGS="--cfg=rustix_use_libc" RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTUP_TOOLCHAIN CARGO_ENCODED_RUSTFLAGS
mkdir -p target || exit 3
exec 9>target/.lock
flock 9
# Cargo goes by modification times; go by content.
h=$(cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$h" != "$(cat target/.repo 2>/dev/null)" ]; then
  rm -f target/.repo
  cargo clean --offline -q -p async-io 2>/dev/null
fi
cargo build --offline -q "$@" 9>&- || exit 3
echo "$h" > target/.repo
