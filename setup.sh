#!/bin/bash
# Build the simulator once (each check rebuilds what changed).
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
cd sim && cargo build --release --offline --quiet --features parallel --target-dir ../sim/target 2>build-target.log || { tail -40 build-target.log >&2; exit 1; }
cd cli && cargo build --release --offline --quiet --target-dir ../target-cli 2>../build-cli.log || { tail -40 ../build-cli.log >&2; exit 1; }
