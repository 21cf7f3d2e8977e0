#!/bin/bash
# run.sh <property> <quick|thorough> [--replay <file>]   builds from /repo's working tree, then decides
# run.sh --build                                         builds only
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VMON_REPO:-/repo}"
T="$VERIF/target"
export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR RUST_BACKTRACE
[ -f /root/.cargo/env ] && . /root/.cargo/env
export PATH="/root/.cargo/bin:$PATH"
mkdir -p "$T"

build() {
    exec 9>"$T/lock"
    flock 9
    # cargo goes by modification times; a change that was put back with an old one must be seen too.
    local sum
    sum=$(cd "$REPO" && { find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; } | sha256sum)
    if [ "$(cat "$T/stamp" 2>/dev/null)" != "$sum" ]; then
        rm -f "$T/stamp"
        if [ -d "$T/debug" ]; then
            cargo clean --offline --manifest-path "$REPO/Cargo.toml" --target-dir "$T" -p snapcd >/dev/null 2>&1
        fi
    fi
    local lock=$VERIF/harness/Cargo.lock
    if ! cargo build --offline --locked --manifest-path "$REPO/Cargo.toml" --bin snapcd --target-dir "$T" >"$T/build.log" 2>&1; then
        tail -30 "$T/build.log"
        echo "BUILD FAILED: the program in $REPO does not build"
        return 2
    fi
    if ! cargo build --offline --locked --manifest-path "$VERIF/harness/Cargo.toml" --target-dir "$T" >"$T/harness.log" 2>&1; then
        echo "note: the in-process monitors do not build against this tree; running without them"
        grep -m5 -E '^error' "$T/harness.log"
        if ! cargo build --offline --locked --no-default-features --manifest-path "$VERIF/harness/Cargo.toml" --target-dir "$T" >"$T/harness.log" 2>&1; then
            tail -30 "$T/harness.log"
            echo "BUILD FAILED: harness"
            return 2
        fi
    fi
    if [ ! -f "$T/shim.so" ] || [ "$VERIF/shim/shim.c" -nt "$T/shim.so" ]; then
        gcc -O1 -shared -fPIC -o "$T/shim.so" "$VERIF/shim/shim.c" -ldl || return 2
    fi
    echo "$sum" >"$T/stamp"
    flock -u 9
    exec 9>&-
}

if [ "${1:-}" = "--build" ]; then
    build
    exit $?
fi
build || exit 2
export VMON_VERIF="$VERIF" VMON_BIN="$T/debug/snapcd" VMON_SHIM="$T/shim.so"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
prop="$1"
shift; [ $# -gt 0 ] && shift
exec "$T/debug/vmon" "$prop" "$@"
