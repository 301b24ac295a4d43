#!/bin/bash
# C26: one workload in differently built copies of the library and on different machines; the results must be the same.
. "$(dirname "$0")/lib.sh"
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
W=$ROOT/work/C26
rm -rf "$ROOT/work/C26"
mkdir -p "$W"
T0=$(date +%s)
if [ "$TIER" = thorough ]; then
  N=8000000 N_UNOPT=1500000 N_WASM=3000000 MIRI_N=800 MIRI_OS=400 LIMIT=7200
  MIRI="powerpc-unknown-linux-gnu i686-pc-windows-gnu aarch64-apple-darwin s390x-unknown-linux-gnu armv7-unknown-linux-gnueabihf"
else
  N=500000 N_UNOPT=120000 N_WASM=160000 MIRI_N=80 MIRI_OS=60 LIMIT=600
  MIRI="powerpc-unknown-linux-gnu i686-pc-windows-gnu aarch64-apple-darwin"
fi
# machines and systems that the source names get a run of their own
NAMED=$(python3 checks/c26_named.py /repo/src $MIRI)
echo "$NAMED" >"$W/named"
H=harness/Cargo.toml
LIBRARY=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library
WASM=$ROOT/target/c26-wasm/wasm32-unknown-unknown/release/wasmmon.wasm

# bld <config> <target dir> <command...>: the build, its outcome in <config>.build
bld() {
  local c=$1 d=$2
  shift 2
  fresh "$d"
  CARGO_TARGET_DIR=$d timeout "$LIMIT" "$@" >"$W/$c.log" 2>&1
  echo $? >"$W/$c.build"
}
# run <config> <part> <command...>
run() {
  local c=$1 p=$2
  shift 2
  timeout "$LIMIT" "$@" >"$W/$c.$p.out" 2>"$W/$c.$p.err"
  echo $? >"$W/$c.$p.rc"
}
built() { [ "$(cat "$W/$1.build" 2>/dev/null)" = 0 ]; }

miri_target() { # <target>
  local t=$1 i n=$MIRI_OS p=2
  # byte order is what only the interpreter can show: most of its runs go there
  case $t in powerpc*) n=$MIRI_N p=6 ;; s390x*) n=$MIRI_N p=3 ;; esac
  case " $NAMED " in *" $t "*) n=$MIRI_N p=5 ;; esac
  local d=$ROOT/target/c26-miri-$t
  fresh "$d"
  export MIRIFLAGS="-Zmiri-disable-validation -Zmiri-disable-stacked-borrows"
  CARGO_TARGET_DIR=$d timeout "$LIMIT" cargo +nightly miri run -q --offline --target "$t" --manifest-path $H --bin trace -- small "$SEED" 0 1 0 >"$W/$t.log" 2>&1
  echo $? >"$W/$t.build"
  built "$t" || return
  for i in $(seq 0 $((p - 1))); do
    CARGO_TARGET_DIR=$d run "$t" "$i" cargo +nightly miri run -q --offline --target "$t" --manifest-path $H --bin trace -- small "$SEED" "$i" "$p" "$n" &
  done
  wait
}

for t in $MIRI $NAMED; do miri_target "$t" & done
bld base "$ROOT/target" cargo build --release --offline --manifest-path $H --bin trace &
B=$!
bld plain "$ROOT/target/c26-plain" cargo build --profile plain --offline --manifest-path $H --bin trace &
bld small "$ROOT/target/c26-small" cargo build --profile small --offline --manifest-path $H --bin trace &
bld unopt "$ROOT/target/c26-unopt" cargo build --profile unopt --offline --manifest-path $H --bin trace &
RUSTFLAGS="-C target-cpu=native" bld cpu "$ROOT/target/c26-cpu" cargo build --profile plain --offline --manifest-path $H --bin trace &
bld serde "$ROOT/target/c26-serde" cargo build --profile plain --offline --manifest-path serdemon/Cargo.toml --bin trace &
bld nightly "$ROOT/target/c26-nightly" cargo +nightly build --profile plain --offline --manifest-path $H --bin trace &
bld wasm "$ROOT/target/c26-wasm" cargo +nightly build -Zbuild-std=std,panic_abort --config 'source.crates-io.replace-with="vendored"' --config "source.vendored.directory=\"$LIBRARY/vendor\"" --release --offline --target wasm32-unknown-unknown --manifest-path wasmmon/Cargo.toml &
wait $B
if ! built base; then
  echo "inconclusive: the build failed, see $W/base.log" >&2
  grep -E '^error' -A 12 "$W/base.log" | head -60 >&2
  kill $(jobs -p) 2>/dev/null
  exit 2
fi
wait

BASE=$ROOT/target/release/trace
run base 0 "$BASE" native "$SEED" "$N" 8 "$W/base.bin"
"$BASE" dict >"$W/dict"
run small-base 0 "$BASE" small "$SEED" 0 1 $((MIRI_N * 6))
for c in plain:plain:$N small:small:$N cpu:plain:$N serde:plain:$N nightly:plain:$N unopt:unopt:$N_UNOPT; do
  IFS=: read -r c p n <<<"$c"
  built "$c" && run "$c" 0 "$ROOT/target/c26-$c/$p/trace" native "$SEED" "$n" 4 "$W/$c.bin" &
done
if built wasm; then
  for i in 0 1 2 3; do
    run wasm $i node wasmmon/run.js "$WASM" "$W/dict" "$SEED" $((i * N_WASM / 4)) $(((i + 1) * N_WASM / 4)) "$W/wasm.$i.bin" &
  done
fi
wait
exec python3 checks/c26.py "$ROOT" "$W" "$SEED" "$TIER" "$T0"
