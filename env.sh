# Sourced by the check scripts: the pinned toolchain, offline, own cargo home
# and target directory.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
export CARGO_HOME="$VERIF_DIR/.build/cargo-home"
export CARGO_TARGET_DIR="$VERIF_DIR/.build/target" CARGO_INCREMENTAL=0
