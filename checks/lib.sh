# sourced by the checks: paths, the seed, and a build of /repo's current working tree
cd "$(dirname "${BASH_SOURCE[0]}")/.." || exit 2
ROOT=$PWD
export MON_ROOT=$ROOT
export CARGO_NET_OFFLINE=true
mkdir -p work evidence replays
unset RUSTFLAGS MIRIFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS

# Cargo decides by time stamps whether to rebuild; a changed file can carry an old one.
# fresh <target dir>: forget the crate under test there unless the same content was built.
fresh() {
  local h f="$1/.repo-content"
  h=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
  if [ "$(cat "$f" 2>/dev/null)" != "$h" ]; then
    find "$1" \( -name 'mqtt_packet_3_5-*' -o -name 'libmqtt_packet_3_5-*' -o -name 'mqtt_packet_3_5' \) \
      -prune -exec rm -rf {} + 2>/dev/null
    mkdir -p "$1"
    echo "$h" >"$f"
  fi
}
# build <log> <command...>: exit code 2 (no verdict) if it fails
build() {
  local log=$1
  shift
  if ! "$@" >"$log" 2>&1; then
    echo "inconclusive: the build failed, see $log" >&2
    grep -E '^error' -A 12 "$log" | head -60 >&2
    return 2
  fi
}
