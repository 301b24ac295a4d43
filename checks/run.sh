#!/bin/bash
# usage: checks/run.sh <property id>    (VERIF_SEED, VERIF_TIER from the environment)
. "$(dirname "$0")/lib.sh"
fresh "$ROOT/target"
export CARGO_TARGET_DIR=$ROOT/target
build "work/build-$1.log" cargo build --release --offline --manifest-path harness/Cargo.toml --bin mon || exit 2
exec target/release/mon check "$1"
