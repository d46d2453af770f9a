#!/bin/bash
# Offline sanity build of the whole harness (every check rebuilds what it
# needs from /repo's working tree anyway).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$here/harness/target"
cd "$here/harness" && cargo build --offline
