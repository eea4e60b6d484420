#!/bin/bash
# Usage: check.sh <property id> [quick|thorough]
# Builds the harness from /repo's current working tree and runs one check.
cd /verif || exit 3
log=$(mktemp)
if ! bash /verif/build.sh >"$log" 2>&1; then
  tail -60 "$log" >&2
  rm -f "$log"
  echo "build of the harness against /repo failed" >&2
  exit 3
fi
rm -f "$log"
exec /verif/.build/debug/vh check "$1" ${2:-}
