#!/bin/bash
# Build every harness crate from /repo's working tree (offline). Checks rebuild what changed.
set -e
. "$(dirname "$0")/../env.sh"
for c in $(ls "$VERIF_DIR/harness"); do
  [ -f "$VERIF_DIR/harness/$c/Cargo.toml" ] || continue
  (cd "$VERIF_DIR/harness/$c" && cargo build --offline 2>&1 | grep -v '^warning' | tail -3)
done
