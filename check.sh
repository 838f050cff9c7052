#!/bin/bash
# check.sh ID quick|thorough     decide one property
# check.sh replay FILE           replay a recorded violation
# check.sh selfcheck [N] [ID..]  is the simulation deterministic?
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 2
export VERIF_HOME=$HERE
case "$1" in
  C01|C06|C07|C08|C23|C24) parts="lib cli" ;;
  C*) parts="lib" ;;
  *) parts="lib cli" ;;
esac
"$HERE/sim/build.sh" $parts || { echo "the build of /repo for simulation failed" >&2; exit 2; }
export SIM_CLI=$HERE/target/cli/release/layout
BIN=$HERE/target/lib/release/simcheck
case "$1" in
  replay|selfcheck|case) exec "$BIN" "$@" ;;
  *) exec "$BIN" check "$1" "${2:-quick}" ;;
esac
