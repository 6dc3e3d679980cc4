#!/bin/bash
# run.sh <property> [quick|thorough] : builds the harness from /repo's current tree and runs one check.
# exit 0 held, 1 violation, 2 the harness could not be built or run
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_OUT="${VERIF_OUT:-$HERE}"
export CARGO_NET_OFFLINE=true
mkdir -p "$HERE/replays" "$HERE/evidence"
LOG="$(mktemp /tmp/verif-build.XXXXXX)"
trap 'rm -f "$LOG"' EXIT
CRATE=harness
[ "$ID" = P21 ] && CRATE=sensor
[ "$ID" = P23 -o "$ID" = P24 ] && CRATE=defs && [ "$TIER" = thorough ] && export DEFS_DEEP=1
cd "$HERE/$CRATE" || exit 2
if ! cargo build --release --offline >"$LOG" 2>&1; then
  # the definitions of P23 are fixed and accepted on the unchanged tree: if the library and the macros
  # themselves compile and a definition does not, that is what P23 is about
  if [ "$ID" = P23 ] && cargo build --release --offline -p brec -p brec_macros >/dev/null 2>&1 && grep -qE "^error: could not compile .(defs|only_blocks|only_default|only_own|single|older|newer)\\b|custom build command for .(defs|only_blocks|only_default|only_own|single|older|newer)\\b" "$LOG"; then
    R="$HERE/replays/P23.txt"
    { echo "a definition does not compile; re-run: bash $HERE/run.sh $ID $TIER"; grep -E "^error" -A 12 "$LOG" | head -n 200; } >"$R"
    head -n 40 "$R" >&2
    echo "VIOLATION property=$ID replay=$R"
    exit 1
  fi
  tail -n 60 "$LOG" >&2
  echo "the harness does not build against /repo" >&2
  exit 2
fi
"./target/release/$CRATE" "$ID" "$TIER"
rc=$?
if [ $rc -ge 128 ]; then
  R="$HERE/replays/$ID.txt"
  echo "the checked code killed the process (status $rc: abort, stack overflow or out of memory); re-run: bash $HERE/run.sh $ID $TIER" >"$R"
  cat "$R" >&2
  echo "VIOLATION property=$ID replay=$R"
  exit 1
fi
exit $rc
