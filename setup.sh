#!/bin/bash
# Builds the harness once, to show that it builds offline, and that TLC is there. The checks build it again.
set -e
cd "$(dirname "$0")"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg pokers_verif"
(cd harness && cargo build --release --offline --locked --target-dir target)
test -f /opt/veriftools/tla/tla2tools.jar
