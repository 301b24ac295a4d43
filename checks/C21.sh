#!/bin/bash
# C21: Miri, MemorySanitizer and ThreadSanitizer beside each other, then AddressSanitizer, which reports for all.
. "$(dirname "$0")/lib.sh"
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
T=x86_64-unknown-linux-gnu
W=$ROOT/work/C21
rm -rf "$ROOT/work/C21" "$ROOT/work/C21-parts.txt"
mkdir -p "$W"
if [ "$TIER" = thorough ]; then
  MIRI_RUNS=8 MIRI_CASES=900 A_SCALE=1 M_SCALE=0.5 T_SCALE=0.3 MIRI_LIMIT=7200
else
  MIRI_RUNS=6 MIRI_CASES=24 A_SCALE=0.35 M_SCALE=0.25 T_SCALE=0.15 MIRI_LIMIT=600
fi
export ASAN_OPTIONS=exitcode=99:detect_leaks=0:allocator_may_return_null=0
export MSAN_OPTIONS=exitcode=99
export TSAN_OPTIONS=exitcode=99:halt_on_error=1

LIBRARY=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library
STD=(-Zbuild-std --config 'source.crates-io.replace-with="vendored"' --config "source.vendored.directory=\"$LIBRARY/vendor\"")

miri_one() { # <n>
  local s=$((SEED * 1000 + $1)) rc flags
  # tree borrows on every other run: the two aliasing models reject different programs
  flags="-Zmiri-seed=$s"
  [ $(($1 % 2)) = 1 ] && flags="$flags -Zmiri-tree-borrows"
  MIRIFLAGS="$flags" CARGO_TARGET_DIR=$ROOT/target/miri timeout "$MIRI_LIMIT" \
    cargo +nightly miri run -q --offline --manifest-path harness/Cargo.toml --bin ubmon -- "$s" "$MIRI_CASES" \
    >"$W/miri-$1.out" 2>"$W/miri-$1.err"
  rc=$?
  echo "$rc" >"$W/miri-$1.rc"
}
miri_all() {
  fresh "$ROOT/target/miri"
  # one build, then the runs side by side
  CARGO_TARGET_DIR=$ROOT/target/miri timeout "$MIRI_LIMIT" \
    cargo +nightly miri run -q --offline --manifest-path harness/Cargo.toml --bin ubmon -- 0 0 >"$W/miri-build.log" 2>&1
  local i
  for i in $(seq 1 $MIRI_RUNS); do miri_one "$i" & done
  wait
}
san() { # <name> <flag> <scale>
  local d=$ROOT/target/$1
  fresh "$d"
  local std=()
  [ "$1" = address ] || std=("${STD[@]}")
  RUSTFLAGS="-Zsanitizer=$1 $2" CARGO_TARGET_DIR=$d \
    build "$W/build-$1.log" cargo +nightly build "${std[@]}" --release --offline --target $T --no-default-features --manifest-path harness/Cargo.toml --bin mon || return 2
}

miri_all &
MIRI_PID=$!
san memory "-Zsanitizer-memory-track-origins" &
M_PID=$!
san thread "" &
T_PID=$!
san address ""
A_RC=$?
wait $M_PID
M_RC=$?
wait $T_PID
T_RC=$?
[ "$A_RC$M_RC$T_RC" = 000 ] || exit 2

RC=0
for s in memory thread; do
  scale=$M_SCALE
  [ $s = thread ] && scale=$T_SCALE
  MON_SAN=$s MON_SCALE=$scale MON_EVIDENCE=$W/$s.json target/$s/$T/release/mon check C21 >"$W/$s.out" 2>"$W/$s.err"
  r=$?
  if [ $r = 1 ]; then
    # keep what the sanitizer said beside the replay file
    cat "$W/$s.out"
    tail -n 40 "$W/$s.err" >&2
    RC=1
  elif [ $r != 0 ]; then
    cat "$W/$s.out" "$W/$s.err" >&2
    [ $RC = 1 ] || RC=2
  fi
done

wait $MIRI_PID
for i in $(seq 1 $MIRI_RUNS); do
  r=$(cat "$W/miri-$i.rc" 2>/dev/null || echo 2)
  if [ "$r" != 0 ]; then
    if grep -qE 'Undefined Behavior|memory leaked|MONITOR:|data race' "$W/miri-$i.err"; then
      f=$ROOT/replays/C21-miri-$((SEED * 1000 + i)).replay
      {
        echo "property: C21"
        echo "tool: miri, run: MIRIFLAGS=-Zmiri-seed=$((SEED * 1000 + i)) cargo +nightly miri run --manifest-path harness/Cargo.toml --bin ubmon -- $((SEED * 1000 + i)) $MIRI_CASES"
        tail -n 80 "$W/miri-$i.err"
      } >"$f"
      echo "VIOLATION property=C21 replay=$f"
      grep -E 'Undefined Behavior|memory leaked|MONITOR:' "$W/miri-$i.err" | head -3
      RC=1
      break
    else
      echo "inconclusive: interpreter run $i ended with $r" >&2
      tail -n 15 "$W/miri-$i.err" >&2
      [ $RC = 1 ] || RC=2
    fi
  fi
done

python3 - "$W" "$ROOT/work/C21-parts.txt" $MIRI_RUNS <<'P'
import json, os, sys
w, out, runs = sys.argv[1], sys.argv[2], int(sys.argv[3])
lines = []
for s, ren in (("memory", {"memory sanitizer active": "memory sanitizer active", "decode calls under instrumentation": "decode calls under MemorySanitizer"}),
               ("thread", {"thread sanitizer active": "thread sanitizer active", "concurrent operations": "concurrent operations under ThreadSanitizer"})):
    try:
        o = json.load(open(f"{w}/{s}.json"))["coverage"].get("observed", {})
    except Exception:
        o = {}
    for k, v in ren.items():
        if k in o:
            lines.append(f"{v}={o[k]}")
for i in range(1, runs + 1):
    try:
        ok = open(f"{w}/miri-{i}.rc").read().strip() == "0"
        if ok:
            lines += [l.strip() for l in open(f"{w}/miri-{i}.out") if "=" in l]
    except OSError:
        pass
open(out, "w").write("\n".join(lines) + "\n")
P

MON_SAN=address MON_SCALE=$A_SCALE target/address/$T/release/mon check C21
r=$?
if [ $r = 1 ] || [ $RC = 1 ]; then
  # a violation seen by another instrumentation belongs into the evidence as well
  [ $r = 1 ] || sed -i 's/"violations": 0/"violations": 1/' evidence/C21.json
  exit 1
fi
[ $r = 0 ] && exit $RC
exit $r
