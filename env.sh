# Sourced: build functions of the harness (offline).
VERIF=${here:-/verif}
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
BIN=$VERIF/target/debug/xv
export XV_API=$VERIF/target-api/debug
ASAN_BIN=$VERIF/target-asan/x86_64-unknown-linux-gnu/debug/xv
build() {
  ( cd "$VERIF/harness" && RUSTFLAGS= RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$VERIF/target \
    cargo build --offline -q 2> "$VERIF/target.log" ) || { tail -40 "$VERIF/target.log" >&2; return 1; }
}
build_asan() {
  ( cd "$VERIF/harness" && RUSTFLAGS="-Zsanitizer=address --cfg sanitized" RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$VERIF/target-asan \
    cargo build --offline -q --target x86_64-unknown-linux-gnu 2> "$VERIF/target-asan.log" ) || { tail -40 "$VERIF/target-asan.log" >&2; return 1; }
}
# what generated programs (C29) are compiled against: the crate with its real dependencies
build_api() {
  ( cd "$VERIF/compile" && RUSTFLAGS= RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$VERIF/target-api \
    cargo build --offline -q 2> "$VERIF/target-api.log" ) || { tail -40 "$VERIF/target-api.log" >&2; return 1; }
}
export XV_RUSTC=$(RUSTUP_TOOLCHAIN=stable rustc --print sysroot)/bin/rustc
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=8000
