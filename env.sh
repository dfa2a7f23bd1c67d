export RUSTUP_TOOLCHAIN=1.72 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target RUSTFLAGS="-Awarnings --cap-lints allow" CARGO_TERM_COLOR=never
