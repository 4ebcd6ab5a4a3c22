#!/bin/bash
# setup_cmd: builds the harness, templates and the command line once (checks rebuild what changed).
DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$DIR/build.sh" || exit 2
. "$DIR/env.sh"
"$DIR/target/debug/svm-verif" prepare
