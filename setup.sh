#!/bin/bash
# Builds the framework once, offline, from the committed files.  The checks
# build again what they need (each into target/<property>), so this only shows
# that the tools are there.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$here/target/setup"
mkdir -p "$here/work" "$here/target" "$here/evidence"
cd "$here/harness" && cargo build --offline --locked -q --no-default-features --features C01,C12
