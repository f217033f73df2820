# build steps; each prints the compiler's complaints only when it fails
REPO=${LV_REPO:-/repo}
# cargo judges staleness by modification time: when the sources differ in content from those of
# the last build, forget what was built from them
sync_sources() { # target dir
  local h f=$1/.lv-sources
  h=$(cd "$REPO" && find crates Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$f" 2>/dev/null)" != "$h" ]; then
    find "$1" -maxdepth 4 -type d -path '*/.fingerprint/ludtwig*' -prune -exec rm -rf {} + 2>/dev/null
    find "$1" -maxdepth 4 -type d -path '*/.fingerprint/lv-*' -prune -exec rm -rf {} + 2>/dev/null
    mkdir -p "$1"; echo "$h" > "$f"
  fi
}
quietly() { # log command...
  local log=$1; shift
  "$@" > "$log" 2>&1 && return 0
  tail -n 40 "$log" >&2
  echo "ERROR: build failed: $*" >&2
  return 1
}
build_harness() {
  sync_sources "$CARGO_TARGET_DIR"
  ( cd "$VERIF/harness" && quietly "$CARGO_TARGET_DIR/harness.log" cargo build --release --offline )
}
build_cli() {
  ( cd "$REPO" && export CARGO_TARGET_DIR=$CARGO_TARGET_DIR/cli && sync_sources "$CARGO_TARGET_DIR" &&
    CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_OPT_LEVEL=1 \
    quietly "$CARGO_TARGET_DIR/cli.log" cargo build --release --offline --locked -p ludtwig ) || return 1
  export LV_LUDTWIG=$CARGO_TARGET_DIR/cli/release/ludtwig
  quietly "$CARGO_TARGET_DIR/shim.log" gcc -O1 -shared -fPIC -o "$CARGO_TARGET_DIR/shim.so" "$VERIF/harness/shim/shim.c" -ldl || return 1
  export LV_SHIM=$CARGO_TARGET_DIR/shim.so
}
X=x86_64-unknown-linux-gnu
build_sanitizers() {
  local san
  for san in address thread; do
    ( cd "$VERIF/harness" && export CARGO_TARGET_DIR=$CARGO_TARGET_DIR/$san RUSTUP_TOOLCHAIN=nightly && mkdir -p "$CARGO_TARGET_DIR" && sync_sources "$CARGO_TARGET_DIR" &&
      RUSTFLAGS="-Zsanitizer=$san -Cdebuginfo=1" quietly "$CARGO_TARGET_DIR/build.log" cargo build -Zbuild-std --release --offline --target $X ) || return 1
  done
  ( cd "$VERIF/harness" && export CARGO_TARGET_DIR=$CARGO_TARGET_DIR/miri RUSTUP_TOOLCHAIN=nightly && mkdir -p "$CARGO_TARGET_DIR" && sync_sources "$CARGO_TARGET_DIR" &&
    MIRIFLAGS=-Zmiri-disable-stacked-borrows quietly "$CARGO_TARGET_DIR/build.log" cargo miri run --offline -- noop ) || return 1
  export LV_ASAN=$CARGO_TARGET_DIR/address/$X/release/lv LV_TSAN=$CARGO_TARGET_DIR/thread/$X/release/lv LV_MIRI="cargo miri run --offline --"
}
# ThreadSanitizer needs to see allocations: the program is built from a copy of the current sources
# with mimalloc replaced by the system allocator (harness/mimalloc), everything else as it is
build_cli_tsan() {
  local T=$CARGO_TARGET_DIR/cli-tsan
  mkdir -p "$T/src" && rm -rf "$T/src/crates" && cp -a "$REPO/crates" "$REPO/Cargo.toml" "$REPO/Cargo.lock" "$T/src/" || return 1
  printf '\n[patch.crates-io]\nmimalloc = { path = "%s" }\n' "$VERIF/harness/mimalloc" >> "$T/src/Cargo.toml"
  ( cd "$T/src" && export CARGO_TARGET_DIR=$T RUSTUP_TOOLCHAIN=nightly && sync_sources "$T" &&
    CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_STRIP=none RUSTFLAGS="-Zsanitizer=thread -Cdebuginfo=1" \
    quietly "$T/build.log" cargo build -Zbuild-std --release --offline --target $X -p ludtwig ) || return 1
  export LV_LUDTWIG_TSAN=$T/$X/release/ludtwig
}
