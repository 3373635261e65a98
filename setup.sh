#!/bin/bash
# Build every harness once against /repo's working tree.
export VERIF_DIR=${VERIF_DIR:-$(cd "$(dirname "$0")" && pwd)}
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=$VERIF_DIR/target CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
mkdir -p "$CARGO_TARGET_DIR"
for c in "$VERIF_DIR"/harness/*/Cargo.toml; do
  d=$(dirname "$c")
  case $(basename "$d") in common) continue;; esac
  (cd "$d" && cargo build --release --offline 2>&1 | tail -3) || exit 1
done
exit 0
