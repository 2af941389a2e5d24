#!/bin/bash
# Builds and runs the small program beside this file against the overlord crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p /tmp/ovdemo-@ID@/src
sed "s#@REPO@#$PWD#" "$here/Cargo.toml.in" > /tmp/ovdemo-@ID@/Cargo.toml
cp "$here/Cargo.lock.in" /tmp/ovdemo-@ID@/Cargo.lock
cp "$here"/*.rs /tmp/ovdemo-@ID@/src/
cd /tmp/ovdemo-@ID@ || exit 2
unset RUSTFLAGS
CARGO_NET_OFFLINE=true timeout 280 cargo run --offline -q --target-dir "${OVDEMO_TARGET:-/tmp/ovdemo-@ID@/target}"
rc=$?
rm -rf /tmp/ovdemo-@ID@
exit $rc
