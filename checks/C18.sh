#!/bin/bash
# C18: the same monitors, built with the serde feature of the crate
. "$(dirname "$0")/lib.sh"
fresh "$ROOT/target/serde"
export CARGO_TARGET_DIR=$ROOT/target/serde
build work/build-C18.log cargo build --release --offline --manifest-path serdemon/Cargo.toml || exit 2
exec "$CARGO_TARGET_DIR/release/serdemon" check C18
