#!/bin/bash
# builds the extractor and the bounded harness, offline
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd vx && cargo build --release --offline --quiet)
(cd harness && cargo build --offline --quiet)
mkdir -p evidence
