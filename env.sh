# Sourced by the scripts of this directory.
. /opt/vp/svm-env.sh
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TERM_COLOR=never
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
