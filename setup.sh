#!/bin/bash
# Builds the harness once; every check builds it again against /repo's tree of that moment.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true; unset RUSTFLAGS
. ./build.inc
build_native && build_weighted && build_sanitized
