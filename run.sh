#!/bin/bash
# ./run.sh <property>              run one check (VERIF_SEED, VERIF_TIER)
# ./run.sh case <property> <i> [seed] [tier]   replay one case verbosely
# ./run.sh build                   build only
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true ASAN_OPTIONS=detect_leaks=0
unset CARGO_TARGET_DIR RUSTFLAGS
export VERIF_DIR=$VERIF
mkdir -p evidence
# Cargo judges freshness by time stamps; make sure a build made from other sources is never reused.
stamp=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml -o -name '*.edn' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
# build DIR TARGET-TRIPLE-OR-NONE OPTIONS...
build() {
  local TARGET=$1 FP=$2; shift 2
  mkdir -p "$TARGET"
  ( flock 9
    if [ "$(cat "$TARGET/stamp" 2>/dev/null)" != "$stamp" ] && [ -d "$FP/.fingerprint" ]; then
      find "$FP/.fingerprint" -maxdepth 1 -type d \( -name 'mentat*' -o -name 'mverif*' -o -name 'edn-*' -o -name '*traits-*' -o -name 'db_traits*' \) -exec rm -rf {} +
    fi
    cargo build -q --offline --manifest-path "$VERIF/harness/Cargo.toml" --target-dir "$TARGET" "$@" >"$TARGET/build.log" 2>&1 || { grep -E '^error' -A8 "$TARGET/build.log" | head -40; echo "error: harness does not build"; exit 2; }
    echo "$stamp" > "$TARGET/stamp"
  ) 9>"$TARGET/lock"
}
plain() { build "$VERIF/target" "$VERIF/target/debug"; }
# Instrumented: AddressSanitizer for Rust code, and an allocator that checks how blocks are freed.
HOST=$(rustc -vV | sed -n 's/^host: //p')
asan() { RUSTC_BOOTSTRAP=1 RUSTFLAGS=-Zsanitizer=address build "$VERIF/target-asan" "$VERIF/target-asan/$HOST/debug" --bin mverif --features watch --target "$HOST"; }
use() {
  case "$1" in
    P24) asan || exit 2; BIN=$VERIF/target-asan/$HOST/debug/mverif ;;
    *) plain || exit 2; BIN=$VERIF/target/debug/mverif ;;
  esac
}
case "$1" in
  build) plain || exit 2; asan || exit 2; exit 0 ;;
  case) shift; use "$1"; exec "$BIN" case "$1" "$2" "${3:-${VERIF_SEED:-1}}" "${4:-${VERIF_TIER:-quick}}" ;;
  *) use "$1"; exec "$BIN" run "$1" ;;
esac
