#!/bin/bash
# builds the simulator, the interposition library and podo from /repo's working tree, all outside /repo
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")"
export PODOSIM_HOME="$PWD"
mkdir -p build evidence replay target
exec 9>build/lock
flock 9
if [ ! -e build/shim.so ] || [ shim/shim.c -nt build/shim.so ]; then
  gcc -O2 -w -shared -fPIC -fno-delete-null-pointer-checks -o build/shim.so.new shim/shim.c -ldl
  mv build/shim.so.new build/shim.so
fi
(cd sim && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$PODOSIM_HOME/target/sim" cargo build --release --offline --locked -q)
# a change in /repo counts whatever the times of its files say
sum=$(cd /repo && find Cargo.toml Cargo.lock src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat build/podo.sum 2>/dev/null)" ]; then
  find "$PODOSIM_HOME/target/podo/release/.fingerprint" -maxdepth 1 -name 'podo-*' -exec rm -r {} + 2>/dev/null || true
fi
# nothing of the build may land in /repo
(cd /repo && CARGO_INCREMENTAL=1 CARGO_TARGET_DIR="$PODOSIM_HOME/target/podo" cargo build --release --offline --locked -q)
echo "$sum" >build/podo.sum
