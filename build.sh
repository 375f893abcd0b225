#!/bin/bash
# builds one variant of the harness against /repo's working tree: build.sh main|collide|flushagg
set -e
here="$(cd "$(dirname "$0")" && pwd)"
v="$1"
export HOME="${HOME:-/root}" PATH="${HOME:-/root}/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR="$here/target-$v"
feat=()
[ "$v" = main ] || feat=(--features "$v")
mkdir -p "$CARGO_TARGET_DIR"
# cargo decides freshness by time stamps; decide by content instead
h="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$CARGO_TARGET_DIR/.repo-hash" 2>/dev/null)" != "$h" ]; then
  rm -f "$CARGO_TARGET_DIR/.repo-hash"
  (cd "$here/harness" && cargo clean --offline --release -p candystore >/dev/null 2>&1 || true)
fi
cd "$here/harness"
cargo build --offline --locked --release "${feat[@]}" >"$CARGO_TARGET_DIR/build.log" 2>&1 || { tail -60 "$CARGO_TARGET_DIR/build.log"; exit 3; }
echo "$h" >"$CARGO_TARGET_DIR/.repo-hash"
