#!/bin/bash
# Builds the simulator against /repo's working tree. Offline; writes only under /verif/sim/target.
cd "$(dirname "$0")/sim" || exit 3
export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=1.88-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER="$PWD/wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p target
# cargo decides by modification times; decide by content instead
now=$(find /repo/docx-core/src /repo/docx-core/Cargo.toml wrap.sh -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat target/source.sha256 2>/dev/null)" ]; then
    rm -f target/source.sha256
    cargo clean --release --offline --quiet -p docx-rs -p sim 2>/dev/null
fi
cargo build --release --offline --quiet || exit 3
printf '%s\n' "$now" > target/source.sha256
