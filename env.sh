# environment of the builds of the harness
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= PYO3_PYTHON=/usr/bin/python3
export RUSTFLAGS="--cfg up4_verif -Awarnings"
export CARGO_TARGET_DIR=$VERIF/build/target
