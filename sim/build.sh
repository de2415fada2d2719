#!/bin/bash
# Builds the simulator against /repo's current working tree. usage: build.sh [feature]
set -e
export HOME="${HOME:-/root}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
here=$(cd "$(dirname "$0")" && pwd)
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
export RUSTC_WRAPPER="$here/rustc-wrapper.sh"
export CARGO_TARGET_DIR="$here/../target${1:+-$1}"
cd "$here"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.buildlock"
flock 9
# cargo decides by modification time; a tree whose files changed but kept (or went back to) older times
# must be rebuilt too, so the content decides here.
sum=$(cd /repo && find Cargo.toml serde_json_path serde_json_path_core serde_json_path_macros \
  -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -not -path '*/target/*' -print0 \
  | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
mine=$(find "$here" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.sh' \) -print0 \
  | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
old=$(cat "$CARGO_TARGET_DIR/.built" 2>/dev/null || true)
T=x86_64-unknown-linux-gnu
feat=(); [ -n "$1" ] && feat=(--features "$1")
if [ "$old" != "$sum $mine" ]; then
  rm -f "$CARGO_TARGET_DIR/.built"
  cargo clean --offline --release --target $T -p serde_json_path -p serde_json_path_core -p jpfuncs -p jpsim -p jprt >/dev/null 2>&1 || true
  cargo clean --offline --release -p serde_json_path_macros -p serde_json_path_macros_internal >/dev/null 2>&1 || true
fi
cargo build -q --release --offline --target $T "${feat[@]}" 2>"$CARGO_TARGET_DIR/build.log" || { grep -v "^warning" "$CARGO_TARGET_DIR/build.log" | tail -n 60 >&2; exit 2; }
echo "$sum $mine" > "$CARGO_TARGET_DIR/.built"
