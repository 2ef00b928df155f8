#!/bin/bash
# check.sh <property>            run the check of one property (VERIF_TIER=quick|thorough)
# check.sh replay <property> <space> <index>   re-run one explored case
# check.sh build                 only build the harness from /repo's working tree
cd "$(dirname "$0")" || exit 2
here=$(pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" MC_VERIF="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
log=$(mktemp)
if ! (cd mc && cargo build --release --offline --locked) >"$log" 2>&1; then
  grep -E -A12 "^error" "$log" | head -80 >&2
  echo "check.sh: the harness does not build against /repo" >&2
  rm -f "$log"; exit 2
fi
rm -f "$log"
case "$1" in
  build) exit 0 ;;
  replay) shift; exec target/release/mc replay "$@" ;;
  *) exec target/release/mc check "$1" ;;
esac
