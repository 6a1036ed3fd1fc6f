#!/bin/bash
# check.sh <property> [thorough] | check.sh replay <file> | check.sh build
# Builds the simulator against /repo's working tree (hooks on) and runs one check.
set -u
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$VERIF_DIR/target
export RUSTFLAGS="--cfg ebi_sim --check-cfg=cfg(ebi_sim)"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET
cd "$VERIF_DIR/sim" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --release --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    grep -E '^error' -A 12 "$CARGO_TARGET_DIR/build.log" | head -60 >&2
    tail -5 "$CARGO_TARGET_DIR/build.log" >&2
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
cc -O2 -shared -fPIC -o "$CARGO_TARGET_DIR/csvshim.so.$$" csvshim.c && mv "$CARGO_TARGET_DIR/csvshim.so.$$" "$CARGO_TARGET_DIR/csvshim.so" || exit 2
# the experimenter program, unchanged, in a crate of its own: only three properties need it
case "${1:-}" in
    build|replay|one|gen|C21|C22|C24)
        cd "$VERIF_DIR/exp" || exit 2
        if ! CARGO_TARGET_DIR=$CARGO_TARGET_DIR/exp cargo build --release --offline --locked >"$CARGO_TARGET_DIR/build-exp.log" 2>&1; then
            grep -E '^error' -A 12 "$CARGO_TARGET_DIR/build-exp.log" | head -60 >&2
            tail -5 "$CARGO_TARGET_DIR/build-exp.log" >&2
            echo "experimenter does not build against /repo" >&2
            exit 2
        fi ;;
esac
[ "${1:-}" = build ] && exit 0
cd "$VERIF_DIR" || exit 2
BIN=$CARGO_TARGET_DIR/release/ebisim
case "${1:-}" in
    replay|gen|one|list) exec "$BIN" "$@" ;;
    *) exec "$BIN" check "$@" ;;
esac
