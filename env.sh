export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target RUST_BACKTRACE=0 CARGO_TERM_COLOR=never
