#!/bin/bash
# check.sh <ID>: builds the driver and decides one property against /repo's working tree.
cd "$(dirname "$0")" || exit 3
export SV_ROOT="$PWD"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p .build
if ! cargo build --release --offline --quiet --manifest-path harness/Cargo.toml --target-dir .build/harness >.build/harness.log 2>&1; then
  cat .build/harness.log
  echo "ERROR: the driver does not build"
  exit 3
fi
if [ "$1" = setup ]; then
  exec cargo build --offline --quiet --manifest-path vrt/Cargo.toml --target-dir .build/vrt
fi
if [ "$1" = replay ]; then exec .build/harness/release/sv replay "$2"; fi
exec .build/harness/release/sv check "$1"
