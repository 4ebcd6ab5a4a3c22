#!/bin/bash
# run.sh ID [quick|thorough]: builds from /repo's current tree, then runs the check of a property.
# Exit 0: held; 1: VIOLATION line; anything else: an error of the check.
DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
LOG="$(mktemp)"
trap 'rm -f "$LOG"' EXIT
if ! bash "$DIR/build.sh" >"$LOG" 2>&1; then
  tail -50 "$LOG" >&2
  echo "ERROR: the harness does not build" >&2
  exit 2
fi
. "$DIR/env.sh"
"$DIR/target/debug/svm-verif" run "$1" "${2:-${VERIF_TIER:-quick}}"
