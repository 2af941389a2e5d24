#!/bin/bash
# check.sh ID            build the harness against /repo's working tree and run one check
# check.sh --replay FILE replay a recorded violation
cd "$(dirname "$0")" || exit 2
export OVMON_DIR="$PWD" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
. ./build.inc
what=$1
[ "$what" = "--replay" ] && what=$(grep -o '"check": *"[^"]*"' "$2" | cut -d'"' -f4)
build_native || exit 2
export OVMON_WEIGHTED="$PWD/target/weighted/debug/ovmon" OVMON_SAN="$PWD/target"
case "$what" in
  C17) build_weighted || exit 2;;
  C27) build_sanitized || exit 2;;
esac
if [ "$1" = "--replay" ]; then exec target/debug/ovmon replay "$2"; fi
exec target/debug/ovmon check "$1"
