export PATH="/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
mkdir -p "$here/target"
cd "$here"
