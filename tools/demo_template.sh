#!/bin/bash
# Compiles demo.rs against the libraries the build has just made from /repo and runs it (exit 0: behaves as it should).
D=$(cd "$(dirname "$0")" && pwd)
L=/opt/vp/target/debug/deps
W=$(mktemp -d) || exit 99
trap 'rm -rf -- "$W"' EXIT
X=""
for c in @CRATES@; do X="$X --extern $c=$(ls -t $L/lib$c-*.rlib $L/lib$c-*.so 2>/dev/null | head -1)"; done
export RUSTUP_TOOLCHAIN=nightly-2019-08-26 RUST_BACKTRACE=0
rustc --edition 2018 -C debug-assertions=on -A warnings "$D/demo.rs" -o "$W/demo" -L dependency=$L $X @ROCKS@ || exit 98
cd "$W" && timeout 100 ./demo
