#!/bin/bash
# Builds the analyser from its vendored sources (no network) and prints its path.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/bin"
mkdir -p "$out" 2>/dev/null && [ -w "$out" ] || out="$(mktemp -d /tmp/axv.XXXXXX)"
cd "$here/analyzer"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0
if [ -z "$HOME" ]; then export HOME=/root; fi
if ! go build -o "$out/axv.$$" . >&2; then
  export GOCACHE="$(mktemp -d /tmp/axvcache.XXXXXX)"
  go build -o "$out/axv.$$" . >&2
fi
mv -f "$out/axv.$$" "$out/axv"
echo "$out/axv"
