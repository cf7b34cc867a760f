#!/bin/bash
# Usage: check.sh PROPERTY TIER -- builds the verifier from its source and decides one property
# on /repo's current working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d "${TMPDIR:-/tmp}/gover.XXXXXX")"
trap 'rm -r -f -- "$out"' EXIT
if ! (cd "$here/gover" && env -u GOROOT GOWORK=off GONOSUMDB='*' GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local \
      go build -o "$out/gover" . ) >"$out/build.log" 2>&1; then
  cat "$out/build.log" >&2
  exit 3
fi
if [ $# -eq 0 ]; then exit 0; fi
GOVER_VERIF="$here" "$out/gover" check "$1" "${2:-quick}"
