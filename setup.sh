#!/bin/bash
# builds the monitors against /repo; every check rebuilds what it needs anyway
. "$(dirname "$0")/checks/lib.sh"
fresh "$ROOT/target"
CARGO_TARGET_DIR=$ROOT/target build work/setup.log cargo build --release --offline --manifest-path harness/Cargo.toml || exit 2
fresh "$ROOT/target/serde"
CARGO_TARGET_DIR=$ROOT/target/serde build work/setup-serde.log cargo build --release --offline --manifest-path serdemon/Cargo.toml || exit 2
