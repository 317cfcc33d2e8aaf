#!/bin/bash
# conc.sh build | conc.sh <property> [quick|thorough] | conc.sh replay <file>: the checks that run the crate under the scheduler
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export WZMC_VERIF="$PWD" CARGO_TARGET_DIR="$PWD/conc/target"
unset RUSTFLAGS
build() {
  export WZSHIM="$PWD/conc/target/shim"
  mkdir -p "$WZSHIM"
  local sum=$(cat conc/shim/*.rs conc/wrapper.sh | sha256sum; rustc -V)
  if [ "$sum" != "$(cat "$WZSHIM/sum" 2>/dev/null)" ]; then
    rm -f "$WZSHIM/sum"
    rustc --edition 2021 --crate-name wzshim --crate-type rlib -O -C debug-assertions=off conc/shim/lib.rs -o "$WZSHIM/libwzshim.rlib" 2>conc-build.log || { cat conc-build.log >&2; return 1; }
    cargo clean --offline --quiet --manifest-path conc/Cargo.toml -p wz_reader -p wzconc 2>/dev/null
    echo "$sum" >"$WZSHIM/sum"
  fi
  RUSTC_WRAPPER="$PWD/conc/wrapper.sh" cargo build --offline --quiet --manifest-path conc/Cargo.toml 2>conc-build.log || { cat conc-build.log >&2; echo "the concurrency harness does not build against /repo" >&2; return 1; }
  rm -f conc-build.log
}
build || exit 2
case "$1" in
  build) ;;
  replay) exec conc/target/debug/wzconc replay "$2" ;;
  *) exec conc/target/debug/wzconc check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
