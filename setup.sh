#!/bin/bash
# Builds the monitors once (each check rebuilds what changed).
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-2025-10-03
. "$here/tools/build.sh"
build_mon && build_ffi && build_bins && build_race
