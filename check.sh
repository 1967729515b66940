#!/bin/bash
# check.sh ID TIER: builds the simulator from /repo's working tree and runs a check.
here="$(cd "$(dirname "$0")" && pwd)"
log="$here/.work/build.$$.log"
mkdir -p "$here/.work"
if ! bash "$here/build.sh" >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "check.sh: the simulator does not build" >&2
  exit 2
fi
rm -f "$log"
export SIM_ROOT="$here"
exec "$here/.build/target/release/sim" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
