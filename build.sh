# Sourced by run.sh (or run directly): builds the harness, offline.
VERIF_DIR=${VERIF_DIR:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export CARGO_NET_OFFLINE=true
(cd "$VERIF_DIR/harness" && cargo build --offline --quiet 2>"$CARGO_TARGET_DIR.log") || {
  tail -50 "$CARGO_TARGET_DIR.log" >&2
  echo "BUILD FAILED" >&2
  false
}
