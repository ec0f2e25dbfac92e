#!/bin/bash
# Build the simulator against /repo's current working tree.
cd "$(dirname "$0")/dst" || exit 3
export CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
export CARGO_TARGET_DIR="${DST_TARGET:-$PWD/target}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
# cargo trusts modification times; we trust contents
repo=$(sed -n 's/^extended-collections *=.*path *= *"\([^"]*\)".*/\1/p' scen/Cargo.toml)
sum=$( (cd "$repo" && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; cd "$OLDPWD"; sha256sum rustc-wrap.sh Cargo.lock) | sha256sum | cut -d' ' -f1)
stamp="$CARGO_TARGET_DIR/repo.sum"
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/extended-collections-* "$CARGO_TARGET_DIR"/debug/.fingerprint/extended_collections-* \
         "$CARGO_TARGET_DIR"/debug/.fingerprint/crossbeam-* "$stamp"
fi
cargo +1.77.2-x86_64-unknown-linux-gnu build --offline --quiet "$@" >"$CARGO_TARGET_DIR.log" 2>&1 || { cat "$CARGO_TARGET_DIR.log" >&2; exit 3; }
mkdir -p "$CARGO_TARGET_DIR" && echo "$sum" > "$stamp"
