#!/bin/bash
# Builds the monitor crate (and vpin from /repo's working tree) offline.
set -e
cd "$(dirname "$0")/harness"
export CARGO_NET_OFFLINE=true RUSTFLAGS= CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
log=$(mktemp)
if ! cargo build --offline --locked >"$log" 2>&1; then
  tail -n 60 "$log" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
