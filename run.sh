#!/bin/bash
# usage: run.sh <property id> quick|thorough
# Builds the harness against /repo's working tree and runs one check.
# exit 0: held on everything explored; 1: violation; 2: no answer.
set -u
V=$(cd "$(dirname "$0")" && pwd)
ID=$1 TIER=${2:-${VERIF_TIER:-quick}} SEED=${VERIF_SEED:-1}
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$V/target
mkdir -p "$V/target"
# Cargo goes by modification times; the tree may have been swapped without them moving forward.
# Two builds: "release", with debug assertions and overflow checks, and "plain", without, as users run it.
build() { # profile
  rm -rf "$V/target/$1"/.fingerprint/protox* "$V/target/$1"/.fingerprint/vmon*
  cargo build --profile "$1" --manifest-path "$V/harness/Cargo.toml" 2>&1 || return 1
  if [ "$ID" = C24 ]; then
    cargo build --profile "$1" --manifest-path "$V/shadow/protox/Cargo.toml" --features bin --bin protox 2>&1 || return 1
  fi
}
(
  flock 9
  build plain >"$V/target/build-plain.log" & P=$!
  build release >"$V/target/build.log"; A=$?
  wait $P; B=$?
  [ $A = 0 ] && [ $B = 0 ]
) 9>"$V/target/.vmon-lock" || { tail -50 "$V/target/build.log" "$V/target/build-plain.log" >&2; echo "inconclusive: the harness does not build" >&2; exit 2; }
# In the thorough tier, some checks also run under a sanitizer.
sanitize() { # name, -Zsanitizer=, seconds
  local D=$V/target/$1
  mkdir -p "$D/out/evidence" && cp "$V/known-findings.txt" "$D/out/"
  rm -rf "$D"/x86_64-unknown-linux-gnu/release/.fingerprint/protox* "$D"/x86_64-unknown-linux-gnu/release/.fingerprint/vmon*
  RUSTFLAGS="-Zsanitizer=$2 -Cforce-frame-pointers=yes" CARGO_TARGET_DIR=$D cargo +nightly build --release -Zbuild-std \
    --target x86_64-unknown-linux-gnu --manifest-path "$V/harness/Cargo.toml" >"$D/build.log" 2>&1 ||
    { echo "inconclusive: the harness does not build with $1" >&2; tail -5 "$D/build.log" >&2; return 2; }
  VMON_SAN=$1 ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1 TSAN_OPTIONS=halt_on_error=1:abort_on_error=1:history_size=4 \
    "$D/x86_64-unknown-linux-gnu/release/vmon" check "$ID" thorough "$SEED" "$3" "$D/out"
  local rc=$?
  [ $rc = 0 ] && export "VMON_OBSERVED_$1=$(sed -n 's/.*"evaluations": \([0-9]*\).*/\1/p' "$D/out/evidence/$ID.json")"
  return $rc
}
if [ "$TIER" = thorough ]; then
  case $ID in
    C01) sanitize asan address 900 || exit $? ;;
    C14) sanitize tsan thread 900 || exit $? ;;
  esac
fi
CAP=420; [ "$TIER" = thorough ] && CAP=3600
CAP=${VMON_CAP:-$CAP}
# A part of the work, on other cases, with the plain build.
D=$V/target/plain
mkdir -p "$D/out/evidence" && cp "$V/known-findings.txt" "$D/out/"
VMON_PART=4 "$D/vmon" check "$ID" "$TIER" $((SEED + 500000)) $((CAP / 3 + 1)) "$D/out"
PLAIN=$?
[ $PLAIN = 1 ] && exit 1
[ $PLAIN = 0 ] && export "VMON_OBSERVED_plain=$(sed -n 's/.*"evaluations": \([0-9]*\).*/\1/p' "$D/out/evidence/$ID.json")"
"$V/target/release/vmon" check "$ID" "$TIER" "$SEED" "$CAP" "$V"
RC=$?
[ $RC = 0 ] && exit $PLAIN
exit $RC
