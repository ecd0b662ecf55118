#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough> [case label]
# (development only: VERIF_REPO names a scratch copy of /repo to check instead)
# Builds the harness against /repo's current working tree and runs one property.
. /opt/vp/env.sh
ROOT="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; ONLY="$3"
SEED="${VERIF_SEED:-1}"
export GOFLAGS="-mod=mod -buildvcs=false"
TMP="$(mktemp -d /tmp/verifchk.XXXXXX)" || exit 3
trap 'rm -rf "$TMP"' EXIT
mkdir -p "$ROOT/evidence"; OUT="${VERIF_OUT:-$ROOT}"
cp -r "$ROOT/harness" "$TMP/src" || exit 3
cd "$TMP/src" || exit 3
if [ -n "$VERIF_REPO" ]; then sed -i "s|=> /repo|=> $VERIF_REPO|" go.mod; fi
go build -o "$TMP/harness" . >"$TMP/build.log" 2>&1 || { echo "BUILD FAILED"; head -40 "$TMP/build.log"; exit 3; }
RB=""
case "$ID" in
C05|C27)
  go build -race -o "$TMP/harness.race" . >"$TMP/build.log" 2>&1 || { echo "RACE BUILD FAILED"; head -40 "$TMP/build.log"; exit 3; }
  RB="$TMP/harness.race";;
esac
cd "$TMP"
"$TMP/harness" -prop "$ID" -tier "$TIER" -seed "$SEED" -case "$ONLY" -root "$OUT" -racebin "$RB"
