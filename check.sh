#!/bin/bash
# check.sh PROPERTY [TIER]: rebuilds what changed and decides one property
cd "$(dirname "$0")"
export PODOSIM_HOME="$PWD"
if ! ./build.sh >build/build.log.$$ 2>&1; then
  cat build/build.log.$$ >&2
  rm -f "$PODOSIM_HOME/build/build.log.$$"
  echo "the build failed" >&2
  exit 2
fi
rm -f "$PODOSIM_HOME/build/build.log.$$"
exec target/sim/release/podosim check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
