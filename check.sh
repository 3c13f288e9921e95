#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the harness that decides PROPERTY from /repo's working tree and runs it.
# exit 0 held, 1 violated (with a VIOLATION line), anything else: no verdict
cd "$(dirname "$0")" || exit 3
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
case $prop in
  G15) crate=standalone; bin=vstandalone ;;
  P02|V01|S01|G*) crate=db; bin=vdb ;;
  P*|E03|Q0[2-6]) crate=verify; bin=vverify ;;
  *) crate=standalone; bin=vstandalone ;;
esac
export CARGO_TARGET_DIR=$PWD/target/$crate VERIF_ROOT=$PWD CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log=$(mktemp)
if ! (cd "harness/$crate" && cargo +stable build --release --offline --bin "$bin") >"$log" 2>&1; then
  echo "NO-VERDICT property=$prop: the harness does not build against /repo"
  tail -40 "$log"
  rm -f "$log"
  exit 3
fi
rm -f "$log"
[ -x "$CARGO_TARGET_DIR/release/$bin" ] || exit 3
exec "$CARGO_TARGET_DIR/release/$bin" "$prop" --tier "$tier"
