export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS=-Awarnings
export VERIF_DIR=$PWD CARGO_TARGET_DIR=$PWD/target PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
