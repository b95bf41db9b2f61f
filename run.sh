#!/bin/bash
# run.sh PROPERTY TIER [extra harness flags]: builds the harness against /repo's working tree and runs one check.
# Exit 0: held on everything explored; 1: violated (VIOLATION line on stdout); anything else: error of the check.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
PROP=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
SEED=${VERIF_SEED:-1}
. "$VERIF/env.sh"
MODE=plain
case " $(cat "$VERIF/race_props.txt") " in *" $PROP "*) MODE=race ;; esac
mkdir -p "$VERIF/build" "$VERIF/evidence" "$VERIF/replays"
BIN="$VERIF/build/harness-$MODE"
rm -f "$VERIF/evidence/$PROP.json" "$VERIF"/replays/"$PROP"-*.json
if ! bash "$VERIF/build.sh" $MODE > "$VERIF/build/build-$MODE.log" 2>&1; then
  cat "$VERIF/build/build-$MODE.log" >&2
  echo "error: the harness does not build against /repo" >&2
  exit 2
fi
LOG="$VERIF/build/out-$PROP.log"
RACELOG="$VERIF/build/race-$PROP"
rm -f "$RACELOG".*
GORACE="halt_on_error=0 exitcode=0 log_path=$RACELOG history_size=3" GOTRACEBACK=all \
  "$BIN" -prop "$PROP" -tier "$TIER" -seed "$SEED" -verif "$VERIF" "$@" 2> "$LOG"
RC=$?
VIOL=0
if [ $MODE = race ]; then
  python3 "$VERIF/race_report.py" "$VERIF" "$PROP" "$SEED" "$TIER" "$RACELOG"
  [ $? -eq 1 ] && VIOL=1
fi
if [ $RC -ne 0 ] && [ $RC -ne 1 ]; then
  # A Go runtime fatal error (concurrent map access, stack overflow, unrecovered panic in a goroutine of the code under test,
  # all goroutines asleep) is an observed violation; a kill from outside or a harness error is not.
  if grep -qE '^(fatal error:|panic:|runtime: goroutine stack exceeds|SIGSEGV)' "$LOG" && ! grep -qE 'out of memory' "$LOG"; then
    cp "$LOG" "$VERIF/replays/$PROP-crash.json"
    echo "VIOLATION property=$PROP replay=$VERIF/replays/$PROP-crash.json"
    grep -m1 -A3 -E '^(fatal error:|panic:|runtime: goroutine stack exceeds)' "$LOG"
    [ -f "$VERIF/evidence/$PROP.json" ] || python3 "$VERIF/race_report.py" --crash "$VERIF" "$PROP" "$SEED" "$TIER"
    exit 1
  fi
  tail -50 "$LOG" >&2
  exit 2
fi
[ $RC -eq 1 ] && VIOL=1
exit $VIOL
