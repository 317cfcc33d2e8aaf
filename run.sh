#!/bin/bash
# run.sh build | run.sh <property> [quick|thorough] | run.sh replay <file>
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export WZMC_VERIF="$PWD" CARGO_TARGET_DIR="$PWD/harness/target" WZMC_SEQ="$PWD/seq/target/debug/wzdec"
unset RUSTFLAGS RUSTC_WRAPPER
ORD="$PWD/harness/target/ord"
build() {
  [ "$1" = C24 ] || cargo build --offline --quiet --manifest-path harness/Cargo.toml 2>target-build.log || { cat target-build.log >&2; echo "the harness does not build against /repo" >&2; return 1; }
  # the decoders without rayon, for C14
  # the build that keeps the order of children, for C24
  case "$1" in build|C24|replay) CARGO_TARGET_DIR="$ORD" cargo build --offline --quiet --features ord --manifest-path harness/Cargo.toml 2>target-build.log || { cat target-build.log >&2; echo "the harness does not build against /repo with its feature indexmap" >&2; return 1; } ;; esac
  case "$1" in build|C14|replay) CARGO_TARGET_DIR="$PWD/seq/target" cargo build --offline --quiet --manifest-path seq/Cargo.toml 2>target-build.log || { cat target-build.log >&2; echo "the sequential decoder does not build against /repo" >&2; return 1; } ;; esac
  rm -f target-build.log
}
case "$1" in
  build) build build || exit 2; ./conc.sh build || exit 2 ;;
  replay) [ ! -f "$2" ] || ! grep -qE '"property": *"(C08|C09)"' "$2" || exec ./conc.sh replay "$2"
    build replay || exit 2; grep -qE '"property": *"C24"' "$2" && exec "$ORD/debug/wzmc" replay "$2"; exec harness/target/debug/wzmc replay "$2" ;;
  C08|C09) exec ./conc.sh "$1" "${2:-quick}" ;;
  C24) build C24 || exit 2; exec "$ORD/debug/wzmc" check C24 "${2:-${VERIF_TIER:-quick}}" ;;
  *) build "$1" || exit 2; exec harness/target/debug/wzmc check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
