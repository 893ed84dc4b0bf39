#!/bin/bash
# usage: check.sh <property id> [quick|thorough]     (or: check.sh --build)
# Rebuilds the monitor against /repo's current tree and runs one property.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${R3D_REPO:-/repo}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints warn"
export PATH="/root/.cargo/bin:$PATH"
if [ "${1:-}" = "C27" ]; then exec python3 "$HERE/tools/safety.py" "$HERE" "$REPO" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}"; fi
export CARGO_TARGET_DIR="$HERE/harness/target"
mkdir -p "$CARGO_TARGET_DIR" "$HERE/evidence"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
# what is built is decided by content, not by time stamps
STAMP=$(cat <(cd "$REPO" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) <(cd "$HERE/harness" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
BIN="$CARGO_TARGET_DIR/release/r3dmon"
if [ ! -x "$BIN" ] || [ "$(cat "$CARGO_TARGET_DIR/.stamp" 2>/dev/null)" != "$STAMP" ]; then
    rm -f "$CARGO_TARGET_DIR/.stamp" "$BIN"
    (cd "$HERE/harness" && cargo clean --release --offline -p rust-3d -p r3dmon >/dev/null 2>&1)
    if ! (cd "$HERE/harness" && cargo build --release --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1); then
        grep -E "^error" -A8 "$CARGO_TARGET_DIR/build.log" | head -40
        echo "INCONCLUSIVE: the monitor does not build against $REPO"
        exit 2
    fi
    echo "$STAMP" >"$CARGO_TARGET_DIR/.stamp"
fi
flock -u 9
exec 9>&-
[ "${1:-}" = "--build" ] && exit 0
ID="${1:?property id}"
TIER="${2:-${VERIF_TIER:-quick}}"
exec "$BIN" run --prop "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" --verif "$HERE" --src "$REPO/src"
