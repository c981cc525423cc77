#!/bin/bash
# Build the harness in both configurations from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p build
export RUSTFLAGS="--cfg dumpster_verif" CARGO_NET_OFFLINE=true
(cd harness && CARGO_TARGET_DIR=../build/stable cargo build --offline --locked)
(cd harness && CARGO_TARGET_DIR=../build/nightly cargo +nightly build --offline --locked --features unsized)
python3 -m py_compile check.py campaigns.py visits.py derives.py
