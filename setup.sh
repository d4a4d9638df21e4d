#!/bin/bash
# Builds what the checks build anyway, so that a first check starts warm.
cd "$(dirname "$0")" || exit 1
unset RUSTUP_TOOLCHAIN
(cd vx && CARGO_NET_OFFLINE=true cargo build --offline) || exit 1
command -v verus >/dev/null || { echo "verus not found"; exit 1; }
exit 0
