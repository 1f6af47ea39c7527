#!/bin/bash
# check.sh ID            build the simulator against /repo's working tree and run one property's check
# check.sh --build       build only
# check.sh --replay FILE re-execute a replay file
# Exit: 0 held, 1 VIOLATION, 2 error of the check itself.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/sim/target"
mkdir -p "$CARGO_TARGET_DIR"
# C15 preempts between single memory accesses of the library; the other checks need its control-flow edges only.
case "${1:-}${2:-}${3:-}" in
    --replay*) if grep -q '^property=C15$' "${2:-/dev/null}" 2>/dev/null; then export SIM_STEPS=1; fi ;;
    *C15*) export SIM_STEPS=1 ;;
esac
chmod +x "$here/sim/rustc-wrap.sh" 2>/dev/null
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
build() {
    # Never trust time stamps for the code under test: always recompile it.
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/magmaflow-[0-9a-f]* 2>/dev/null
    (cd "$here/sim" && cargo build --offline --release --quiet) >"$CARGO_TARGET_DIR/build.log" 2>&1
}
exec 9>"$CARGO_TARGET_DIR/.check.lock"
flock 9
if ! build; then
    # A stale or foreign target directory is the harness's problem: once more from scratch.
    rm -rf "$CARGO_TARGET_DIR/release"
    build || { unset RUSTC_WRAPPER; echo "note: building without instrumentation" >&2; }
    if ! build; then
        grep -A7 '^error' "$CARGO_TARGET_DIR/build.log" >&2 || tail -40 "$CARGO_TARGET_DIR/build.log" >&2
        echo "build failed" >&2
        exit 2
    fi
fi
bin=$(mktemp -d /tmp/magmaflow-check.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
cp "$CARGO_TARGET_DIR/release/sim" "$bin/sim" || exit 2
flock -u 9
case "${1:-}" in
    --build) exit 0 ;;
    --replay) "$bin/sim" replay "$2" ;;
    --sim) shift; "$bin/sim" "$@" ;;
    C??) "$bin/sim" check "$1" ;;
    *) echo "usage: check.sh ID | --build | --replay FILE" >&2; exit 2 ;;
esac
