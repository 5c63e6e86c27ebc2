#!/bin/bash
# run.sh ID quick|thorough   build the simulator against /repo's working tree and run one check
# run.sh replay FILE         re-execute a recorded violation
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd); export DST_VERIF="$VERIF"
ID=$1; TIER=${2:-quick}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
build() { # target-dir features...
  local t=$1; shift
  (cd sim && cargo build --release --offline --quiet "$@" --target-dir "$VERIF/sim/$t") 2>"$VERIF/sim/build-$t.log" ||
    { tail -40 "$VERIF/sim/build-$t.log" >&2; echo "build failed" >&2; exit 2; }
}
need_seq() { case "$ID" in C12) return 0;; replay) grep -q '"property": "C12"' "$TIER";; *) return 1;; esac; }
need_cli() { case "$ID" in C19) return 0;; replay) grep -q '"property": "C19"' "$TIER";; *) return 1;; esac; }
if need_cli; then # the tools themselves, and the shim that goes under their libc
  (cd sim/cli && cargo build --release --offline --quiet --target-dir "$VERIF/sim/target-cli" &&
    gcc -shared -fPIC -O1 -o "$VERIF/sim/target-cli/shim.so" shim.c) 2>"$VERIF/sim/build-cli.log" ||
    { tail -40 "$VERIF/sim/build-cli.log" >&2; echo "build failed" >&2; exit 2; }
fi
if need_seq; then # the single-threaded build is the reference replica
  build target-seq & S=$!
  build target --features parallel
  wait $S || exit 2
else
  build target --features parallel
fi
if [ "$ID" = replay ]; then exec "$VERIF/sim/target/release/dst" replay "$TIER"; fi
exec "$VERIF/sim/target/release/dst" check "$ID" "$TIER"
