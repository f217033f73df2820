# one build environment for every check, whatever the caller's looks like
export HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_INCREMENTAL
for v in $(env | grep -o '^LUDTWIG_[A-Z0-9_]*' || true); do unset "$v"; done
export CARGO_TARGET_DIR=$VERIF/target
export LV_VERIF=$VERIF
case ":$PATH:" in *:/root/.cargo/bin:*) ;; *) PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH ;; esac
export PATH
