#!/bin/bash
# Builds the simulator against /repo's working tree.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/.build" "$here/.work"
exec 9>"$here/.build/lock"
flock 9
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTC_BOOTSTRAP=1
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
export CARGO_TARGET_DIR="$here/.build/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
# cargo goes by file times, which a checkout can set back: always rebuild the crate.
find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'nobject-rs-*' -exec rm -r {} + 2>/dev/null || true
cd "$here/sim"
cargo build --release --offline 2>&1
