# Toolchain settings shared by every check (mirrors /opt/vp/env.sh, but builds under /verif/.build).
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
PINNED=/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin
export RUSTC=$PINNED/rustc RUSTDOC=$PINNED/rustdoc
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=${VERIF_TARGET_DIR:-/verif/.build/target}
unset RUSTFLAGS RUST_BACKTRACE
