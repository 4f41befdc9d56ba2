#!/bin/sh
# builds the extractor and the oracle (offline); the checks rebuild what changed
cd "$(dirname "$0")"
(cd extract && cargo build --release --offline) || exit 1
(cd oracle && cargo build --release --offline) || exit 1
mkdir -p out evidence
exit 0
