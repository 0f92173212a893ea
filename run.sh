#!/bin/bash
# usage: run.sh setup | check ID [quick|thorough] | replay FILE | list
# Builds the harness from /repo's current working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_BUILD_RUSTFLAGS RUST_LOG RUST_MIN_STACK
mkdir -p harness/target evidence
log="harness/target/build.$$.log"
build() { # dev|release
  local f=""
  [ "$1" = release ] && f="--release"
  # run inside harness/ so that its .cargo/config.toml (cfg verif_hooks) applies
  if ! (cd harness && flock target/.vhlock cargo build --offline $f) >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$PWD/$log"
    echo "ERROR: the harness does not build against the current /repo" >&2
    exit 2
  fi
  rm -f "$PWD/$log"
}
case "$1" in
  setup) build dev; build release ;;
  check)
    build dev
    other=""
    if [ "$2" = C23 ]; then build release; other="$PWD/harness/target/release/vh"; fi
    exec harness/target/debug/vh check "$2" "${3:-${VERIF_TIER:-quick}}" "$other"
    ;;
  replay) build dev; exec harness/target/debug/vh replay "$2" ;;
  list) build dev; exec harness/target/debug/vh list ;;
  *) echo "usage: run.sh setup | check ID [quick|thorough] | replay FILE | list" >&2; exit 2 ;;
esac
