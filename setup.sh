#!/bin/bash
# Builds the analyser from the committed sources.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=0 GOFLAGS=-mod=mod
export GOCACHE="$here/.cache/go-build"
mkdir -p "$here/.cache" "$here/evidence"
cd "$here/analyzer" && go build -o "$here/.cache/analyzer" .
