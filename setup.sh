#!/bin/bash
# Builds every harness once (the checks rebuild what changed).
set -e
cd "$(dirname "$0")/harness"
export CARGO_TARGET_DIR="$PWD/target"
bash ../fakes/prepare.sh
cargo build --offline --quiet --bin c_comb --features sched
cargo build --offline --quiet --bins
