#!/bin/bash
# Warms the build cache (the checks rebuild from /repo's working tree themselves).
. /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false"
ROOT="$(cd "$(dirname "$0")" && pwd)"
TMP="$(mktemp -d /tmp/verifsetup.XXXXXX)" || exit 3
trap 'rm -rf "$TMP"' EXIT
cp -r "$ROOT/harness" "$TMP/src" && cd "$TMP/src" || exit 3
go build -o "$TMP/h" . && go build -race -o "$TMP/hr" .
