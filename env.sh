# environment of every build and run
export CARGO_TARGET_DIR="$here/sim/target"
export RUSTFLAGS="--cfg rustix_use_libc"
export CARGO_NET_OFFLINE=true
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE RUST_LOG
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"
export RUSTC_WRAPPER="$here/sim/rustc.sh"
unset RUSTC_WORKSPACE_WRAPPER
