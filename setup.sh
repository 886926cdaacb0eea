#!/bin/bash
# Builds the harness once, so that later builds compile only what depends on /repo.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$V/target
for P in release plain; do
  cargo build --profile $P --manifest-path "$V/harness/Cargo.toml"
  cargo build --profile $P --manifest-path "$V/shadow/protox/Cargo.toml" --features bin --bin protox
done
