#!/bin/bash
# Compiles the network crate of /repo with its verification access, and demo.rs against it; runs it (exit 0: behaves as it should).
D=$(cd "$(dirname "$0")" && pwd)
L=/opt/vp/target/debug/deps
W=$(mktemp -d) || exit 99
trap 'rm -rf -- "$W"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2019-08-26 RUST_BACKTRACE=0
X=""
for c in protocol async_trait bincode bytes derive_more futures_timer generic_channel log prost runtime runtime_raw serde serde_derive snap tentacle tentacle_ping tentacle_discovery tentacle_identify; do
  X="$X --extern $c=$(ls -t $L/lib$c-*.rlib $L/lib$c-*.so 2>/dev/null | head -1)"
done
for c in hex parking_lot rand; do
  for f in $L/lib$c-*.rlib; do grep -aq "vendor/$c/src" $f && X="$X --extern $c=$f"; done
done
h=$(ls /opt/vp/target/debug/.fingerprint | grep '^futures-preview-' | head -1); X="$X --extern futures=$L/libfutures-${h##*-}.rlib"
rustc --edition 2018 --crate-name core_network --crate-type rlib --cfg verif_hooks -C debug-assertions=on --cap-lints allow core/network/src/lib.rs -o "$W/libcore_network.rlib" -L dependency=$L $X || exit 97
rustc --edition 2018 -C debug-assertions=on -A warnings "$D/demo.rs" -o "$W/demo" -L dependency=$L $X --extern core_network="$W/libcore_network.rlib" @ROCKS@ || exit 98
cd "$W" && timeout 100 ./demo
