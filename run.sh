#!/bin/bash
# usage: run.sh PROPERTY TIER
# Builds the analyser from the committed sources (cached when possible) and
# decides one property on /repo's current tree.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=0 GOFLAGS=-mod=mod
export GOCACHE="$here/.cache/go-build"
mkdir -p "$here/.cache" "$here/evidence"
if ! (cd "$here/analyzer" && go build -o "$here/.cache/analyzer" .) > "$here/.cache/build.log" 2>&1; then
  cat "$here/.cache/build.log"
  echo "analyser does not build"
  exit 2
fi
exec "$here/.cache/analyzer" -prop "$1" -tier "${2:-quick}" -home "$here" -repo "${REPO_DIR:-/repo}"
