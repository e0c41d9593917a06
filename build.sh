#!/bin/bash
# Builds the model checker against /repo's working tree, offline.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$HERE/target" CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg orchard_mc -Awarnings"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# Cargo goes by modification times; go by content, so that no copy of /repo is mistaken for another.
mkdir -p "$CARGO_TARGET_DIR"
NOW=$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$NOW" != "$(cat "$CARGO_TARGET_DIR/.repo_hash" 2>/dev/null)" ]; then
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/orchard-*
    echo "$NOW" > "$CARGO_TARGET_DIR/.repo_hash"
fi
cd "$HERE/mc" || exit 2
cargo build --release --offline --locked --quiet 2> "$CARGO_TARGET_DIR/build.log" && exit 0
# The hooks may not fit a rearranged circuit; all but a part of C20 does without them.
FIRST=$(cat "$CARGO_TARGET_DIR/build.log")
export RUSTFLAGS="-Awarnings"
cargo build --release --offline --locked --quiet 2> "$CARGO_TARGET_DIR/build.log" && { echo "note: built without the hooks of /repo" >&2; exit 0; }
echo "$FIRST" >&2
exit 2
