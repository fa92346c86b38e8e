#!/bin/bash
# check.sh <property> <quick|thorough>: rebuilds the simulator from /repo's working tree and runs one check.
root=$(cd "$(dirname "$0")/.." && pwd)
export PSIM_ROOT=$root
if ! bash "$root/tools/build.sh" >"$root/build.log.$$" 2>&1; then
  cat "$root/build.log.$$"; rm -f "$root/build.log.$$"
  echo "$1: the simulator could not be built"; exit 2
fi
rm -f "$root/build.log.$$"
exec "${PSIM_BUILD:-$root/build}/target/x86_64-unknown-linux-gnu/debug/psim" check "$1" "${2:-quick}"
