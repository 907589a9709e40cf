#!/bin/bash
# Exits 0 iff the behaviour demonstrated by main.rs is correct. Builds a small program against
# the crates in the current directory (/repo), everything in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
scratch="$(mktemp -d)" || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/demo/src"
cp "$here/main.rs" "$scratch/demo/src/main.rs"
cat > "$scratch/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
powdr-number = { path = "$repo/number" }
powdr-expression = { path = "$repo/expression" }
powdr-constraint-solver = { path = "$repo/constraint-solver" }
powdr-autoprecompiles = { path = "$repo/autoprecompiles" }
powdr-openvm-bus-interaction-handler = { path = "$repo/openvm-bus-interaction-handler" }
powdr-riscv-elf = { path = "$repo/riscv-elf" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
itertools = "*"
T
cp "$here/Cargo.lock" "$scratch/demo/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR="$scratch/target" CARGO_PROFILE_DEV_OPT_LEVEL=0 CARGO_PROFILE_DEV_DEBUG=false CARGO_INCREMENTAL=0
cd "$scratch/demo" || exit 2
cargo build --offline -q || exit 3
"$scratch/target/debug/demo"
