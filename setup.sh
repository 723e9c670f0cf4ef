#!/bin/bash
# Builds the analyser from its committed, vendored source into .bin (ignored by git).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor HOME="${HOME:-/root}"
cd "$here/analyzer" || exit 3
mkdir -p "$here/.bin" || exit 3
tmp="$here/.bin/mqcheck.$$"
go build -o "$tmp" . || exit 3
mv -f "$tmp" "$here/.bin/mqcheck"
