#!/bin/bash
# Builds the harness against the current tree of /repo. The genesis template (a git-ignored build
# product that svm-genesis-config includes) is rebuilt first, from its source in /repo.
set -e
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
FIX=/repo/simple-coin-transfer-template
(cd "$FIX" && CARGO_TARGET_DIR="$VERIF_DIR/target/fixture" \
  cargo build --release --offline --locked --target wasm32-unknown-unknown -q)
SRC="$VERIF_DIR/target/fixture/wasm32-unknown-unknown/release/simple_coin_transfer_template.wasm"
DST="$FIX/simple_coin_transfer_template.wasm"
cmp -s "$SRC" "$DST" || cp "$SRC" "$DST"
cd "$VERIF_DIR/harness"
CARGO_TARGET_DIR="$VERIF_DIR/target" cargo build --offline --locked -q
