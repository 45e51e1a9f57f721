#!/bin/bash
# usage: run.sh <modules/contracts, comma separated> <out.json> [debug|release] [features]
# Type-checks the contract crate against the current tree of /repo and lets the analyser interpret it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mode=${3:-debug}; feats=${4:-}
tgt=${VERIF_TGT:-$(mktemp -d /tmp/vchk.XXXXXX)}
export CARGO_TARGET_DIR=$tgt CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
f="-A dangerous_implicit_autorefs -A warnings -Zalways-encode-mir -Zmir-opt-level=0"
if [ "$mode" = debug ]; then f="$f -C debug-assertions=on -C overflow-checks=on"; else f="$f -C debug-assertions=off -C overflow-checks=off"; fi
export RUSTFLAGS="$f"
export RUSTC_WORKSPACE_WRAPPER=$here/target/release/vchk
export VERIF_ONLY="$1" VERIF_OUT="$2"
cd "$here/../harness"
touch src/lib.rs
rc=0
cargo +nightly check --offline --locked ${feats:+--features $feats} 1>&2 || rc=$?
[ -n "$VERIF_TGT" ] || rm -rf "$tgt"
exit $rc
