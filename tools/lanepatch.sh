#!/bin/bash
# lanepatch.sh LANE PATCH CHECK...: like tryseed, but in copies of /repo and the harness under /tmp/laneN (leaves /repo alone).
L=/tmp/lane$1; P=$2; shift 2; R=$L/repo; V=$L/verif
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -d $R ]; then mkdir -p $V; git clone -q /repo $R; else git -C $R checkout -q -- .; git -C $R pull -q; fi
rsync -a --exclude target /verif/harness /verif/known_findings.txt $V/ 2>/dev/null || cp -r /verif/harness /verif/known_findings.txt $V/
sed -i "s#\"/repo/#\"$R/#" $V/harness/Cargo.toml $V/harness/stormffi/Cargo.toml
[ -n "${EXTRA:-}" ] && git -C $R apply $EXTRA
git -C $R apply $P || { echo "patch does not apply"; exit 9; }
cd $R
if [ -z "${NOTEST:-}" ]; then
CARGO_TARGET_DIR=$R/target cargo test --workspace --offline --locked --no-fail-fast >$L/test.log 2>&1 && echo "tests ok" || { echo "TESTS FAIL"; grep -E "^test .*FAILED|^error" $L/test.log | head -5; }
fi
export CARGO_TARGET_DIR=$V/target RUSTFLAGS="--cfg vp_hooks -Awarnings" VP_DIR=$V VP_CLI=$V/target/debug/storm-cli
cargo build -q --offline --manifest-path $V/harness/Cargo.toml -p vp || exit 9
cargo build -q --offline --manifest-path $R/Cargo.toml -p storm-cli || exit 9
cd $V
for c in "$@"; do $V/target/debug/vp $c quick 2>&1 | tail -3 | cut -c1-300; done
git -C $R checkout -q -- .
