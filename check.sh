#!/bin/bash
# check.sh <property id>: rebuilds the harness against /repo's working tree and decides one property.
# check.sh build: builds both variants only. check.sh replay <file>: repeats one recorded execution.
# Exit 0: held; 1: VIOLATION line printed; 2: error of the check itself.
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cd "$(dirname "$0")" || exit 2
VERIF_DIR="$(pwd)"; export VERIF_DIR
build() { # $1: target directory, $2: rustflags
  # cargo decides by time stamps; a tree that was copied or checked out must be rebuilt regardless
  local f
  for f in "$VERIF_DIR"/mc/"$1"/release/.fingerprint/rusty_network-*; do
    [ -d "$f" ] && rm -rf "$f"
  done
  local log; log="$(mktemp)" || exit 2
  if ! (cd mc && RUSTFLAGS="$2" timeout 800 cargo build --release --offline --locked --target-dir "$1") >"$log" 2>&1; then
    echo "ERROR: the harness does not build against /repo"; tail -60 "$log"; rm -f "$log"; exit 2
  fi
  rm -f "$log"
}
variant() { # the properties about parameter gradients read them through the guarded hook
  case "$1" in
    C11) build target-hook "--cfg rn_mc"; bin=mc/target-hook/release/mc ;;
    *) build target ""; bin=mc/target/release/mc ;;
  esac
}
case "$1" in
  build) build target ""; build target-hook "--cfg rn_mc"; exit 0 ;;
  replay) id="$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)"; variant "$id"; exec "$bin" replay "$2" ;;
  C[0-9]*) variant "$1"; "$bin" check "$1" "$2"; rc=$?; case $rc in 0|1) exit $rc ;; *) echo "ERROR: check ended with $rc"; exit 2 ;; esac ;;
  *) echo "usage: check.sh <property id>|build|replay <file>"; exit 2 ;;
esac
