#!/bin/sh
# builds the extractor and the search program (both feature configurations)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd tool && cargo build --release --offline)
(cd harness && cargo build --release --offline --target-dir target)
(cd harness && cargo build --release --offline --target-dir target-ts --features threadsafe)
