#!/bin/sh
# Builds the conformance harness and runs the smallest model once.
set -e
cd "$(dirname "$0")"
(cd harness && cargo build --release --offline --target-dir ../build/target)

(cd harness && cargo build --release --offline --features user --target-dir ../build/target-user)
