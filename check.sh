#!/bin/bash
# check.sh C07            run the check of one property (VERIF_TIER, VERIF_SEED)
# check.sh fuzz C07 [S]   coverage-guided search for S seconds, added to the evidence (thorough checks do this by themselves)
# check.sh replay FILE    run one saved case again
# check.sh build          only build
# Exit 0: held; 1: VIOLATION line printed; 2: error of the check itself.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/target"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"

# What is compiled from the repository, by content: cargo itself only looks at file times.
stamp() {
  { find /repo/crates /repo/Cargo.toml "$here/harness/src" "$here/harness/Cargo.toml" "$here/harness/Cargo.lock" \
      -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; rustc --version; } | sha256sum | cut -d' ' -f1
}
build() (
  exec 9>"$CARGO_TARGET_DIR/.verif-lock"
  flock 9
  cd "$here/harness" || exit 2
  want="$(stamp)"
  if [ "$(cat "$CARGO_TARGET_DIR/.verif-stamp" 2>/dev/null)" = "$want" ] && [ -x "$CARGO_TARGET_DIR/release/tofas-verif" ]; then
    exit 0
  fi
  /bin/rm -f "$CARGO_TARGET_DIR/.verif-stamp"
  cargo clean --release --offline -p tofas -p tofas_extras -p tofas-verif >/dev/null 2>&1
  log="$CARGO_TARGET_DIR/.verif-build.log"
  if ! cargo build --release --offline --locked --bins >"$log" 2>&1; then
    echo "error: the harness does not build against /repo" >&2
    tail -n 60 "$log" >&2
    exit 2
  fi
  echo "$want" >"$CARGO_TARGET_DIR/.verif-stamp"
)
# The libFuzzer target: the library instrumented, and proptest with one change (a split of a byte-driven
# random stream reads on from the same place instead of halving what is left).
build_fuzz() (
  exec 9>"$CARGO_TARGET_DIR/.verif-fuzz-lock"
  flock 9
  cd "$here/fuzz" || exit 2
  export CARGO_TARGET_DIR="$here/target/fuzz" RUSTC_WRAPPER="$here/tools/sancov_rustc.sh"
  mkdir -p "$CARGO_TARGET_DIR"
  want="$(stamp; sha256sum "$here"/fuzz/Cargo.* "$here"/fuzz/src/* "$RUSTC_WRAPPER")"
  if [ "$(cat "$CARGO_TARGET_DIR/.verif-stamp" 2>/dev/null)" = "$want" ] && [ -x "$CARGO_TARGET_DIR/release/prop" ]; then
    exit 0
  fi
  /bin/rm -f "$CARGO_TARGET_DIR/.verif-stamp"
  P="$CARGO_TARGET_DIR/proptest"
  if ! [ -f "$P/.patched" ]; then
    /bin/rm -rf "$P"
    cp -r "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/proptest-1.12.0 "$P" && patch -s -p1 -d "$P" <"$here/fuzz/proptest.patch" && touch "$P/.patched" || exit 2
  fi
  cargo clean --release --offline -p tofas -p tofas_extras -p tofas-fuzz >/dev/null 2>&1
  log="$CARGO_TARGET_DIR/.verif-build.log"
  if ! cargo build --release --offline --locked >"$log" 2>&1; then
    echo "error: the fuzz target does not build against /repo" >&2
    tail -n 60 "$log" >&2
    exit 2
  fi
  echo "$want" >"$CARGO_TARGET_DIR/.verif-stamp"
)
run_fuzz() {
  case "$1" in C28 | C30) return 0 ;; esac # these run other processes, which libFuzzer cannot watch
  build_fuzz || exit 2
  "$CARGO_TARGET_DIR/release/tofas-verif" fuzz "$1" "$CARGO_TARGET_DIR/fuzz/release/prop" "$CARGO_TARGET_DIR/fuzz/work-$1" "$2"
}
build || exit 2
case "${1:-}" in
  build) exit 0 ;;
  replay) [ $# -eq 2 ] || exit 2; exec "$CARGO_TARGET_DIR/release/tofas-verif" replay "$2" ;;
  fuzz) [ $# -ge 2 ] || exit 2; run_fuzz "$2" "${3:-${VERIF_FUZZ_SECS:-240}}" ;;
  C[0-9][0-9])
    [ "${VERIF_TIER:-}" = thorough ] || exec "$CARGO_TARGET_DIR/release/tofas-verif" "$1"
    "$CARGO_TARGET_DIR/release/tofas-verif" "$1" || exit $?
    run_fuzz "$1" "${VERIF_FUZZ_SECS:-240}" ;;
  *) echo "usage: check.sh C01..C30 | fuzz C07 [SECONDS] | replay FILE | build" >&2; exit 2 ;;
esac
