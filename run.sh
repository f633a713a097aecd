#!/bin/bash
# run.sh ID quick|thorough        run a check against /repo's working tree
# run.sh ID replay FILE           re-execute a recorded counterexample
set -u
cd "$(dirname "$0")" || exit 2
export VP_DIR="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$VP_DIR" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$VP_DIR/target" CARGO_TERM_COLOR=never
ID="${1:?property}"; shift
log="$(mktemp)"
build() {
    if ! RUSTFLAGS="--cfg vp_hooks -Awarnings" cargo build --offline "$@" >"$log" 2>&1; then
        echo "ERROR: build failed"; tail -40 "$log"; rm -f "$log"; exit 2
    fi
}
build --manifest-path harness/Cargo.toml -p vp
case "$ID" in
M24|M25|M26|M30)
    build --manifest-path /repo/Cargo.toml -p storm-cli
    export VP_CLI="$CARGO_TARGET_DIR/debug/storm-cli" ;;
esac
[ "$ID" = setup ] && build --manifest-path /repo/Cargo.toml -p storm-cli
rm -f "$log"
[ "$ID" = setup ] && exit 0
exec "$CARGO_TARGET_DIR/debug/vp" "$ID" "$@"
