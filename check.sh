#!/bin/bash
# check.sh <property>: builds the harness against /repo's working tree (with
# only the crates this property needs) and decides the property.
#   exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
#   anything else: the check itself could not run.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="${1:?usage: check.sh <property> [--replay FILE]}"
shift
export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true
export VERIF_ROOT="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_LOG

case "$prop" in
  C16) features="sched" ;;
  C17|C18|C19|C20|C21|C22|C29) features="remote,sched" ;;
  C27) features="logger" ;;
  C23|C24|C25|C26) features="runner" ;;
  C28) features="runner,remote,sched" ;;
  *) features="" ;;
esac

export CARGO_TARGET_DIR="$here/harness/target"
cd "$here/harness" || exit 2
if ! cargo build --offline --features "$features" >"$here/harness/build.log" 2>&1; then
  echo "ERROR: the harness does not build against /repo:"
  grep -E -A6 '^error' "$here/harness/build.log" | head -40
  exit 2
fi
cd "$here" || exit 2
exec "$here/harness/target/debug/pbt" "$prop" "$@"
