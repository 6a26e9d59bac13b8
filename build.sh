#!/bin/bash
# Builds the simulator (and the code under test from /repo's current tree) into /verif/target.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# cargo decides by file times whether the code under test has changed; decide by content instead
mkdir -p "$here/target"
now="$(cat /repo/Cargo.toml $(find /repo/src -type f | LC_ALL=C sort) | sha256sum)"
if [ "$now" != "$(cat "$here/target/repo.sha" 2>/dev/null)" ]; then
  rm -rf "$here"/target/debug/.fingerprint/rusty-source-map-* "$here"/target/debug/.fingerprint/dst-*
fi
cd "$here/sim" || exit 2
cargo build --offline --locked "$@" || exit 2
echo "$now" > "$here/target/repo.sha"
