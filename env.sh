# Sourced by every script: the toolchain the repository is pinned to, with the hooks on, in our own target directory.
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=nightly-2019-08-26
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUST_BACKTRACE=0
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_DIR/.build/target"
export LIBCLANG_PATH=/usr/lib/llvm-14/lib
export CXXFLAGS="-include cstdint -include system_error -w"
export RUSTFLAGS="--cfg verif_hooks"
unset LD_LIBRARY_PATH
