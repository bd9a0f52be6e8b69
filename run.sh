#!/bin/bash
# Builds one check from /repo's current working tree and runs it.
#   run.sh C05 [--replay FILE | --only NAME]
set -u
cd "$(dirname "$0")" || exit 2
id=$1; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
src=$(ls h-*/src/bin/"$bin".rs 2>/dev/null | head -1)
[ -n "$src" ] || { echo "no check for $id"; exit 2; }
crate=${src%%/*}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
log=$(mktemp)
if ! (cd "$crate" && cargo build --offline --bin "$bin" $(cat extra-bins."$bin" 2>/dev/null)) >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"
  echo "$id: the check does not build"; exit 2
fi
rm -f "$log"
exec ./target/debug/"$bin" "$@"
