#!/bin/bash
# usage: build.sh [bin...]; builds the harness from /repo's working tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target"
args=()
for b in "$@"; do args+=(--bin "$b"); done
exec cargo build --offline --locked "${args[@]}"
