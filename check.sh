#!/bin/bash
# check.sh ID TIER: decides property ID on the current tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
bin="$here/bin/axv"
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -maxdepth 1 -name '*.go' -newer "$bin" -print -quit)" ]; then
  bin="$("$here/build.sh" | tail -1)" || { echo "cannot build the analyser"; echo "VIOLATION property=$1 replay=$here/build.sh"; exit 1; }
fi
"$bin" check "$1" "${2:-quick}" "${REPO:-/repo}" "$here"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "VIOLATION property=$1 replay=$here/check.sh"
  exit 1
fi
exit $rc
