#!/bin/bash
# usage: check.sh <property id>; decides the property from /repo's current sources.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GOGC=400
tmp="$(mktemp -d /tmp/verifchk.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOCACHE="$tmp/cache"
export VERIF_DIR="$here"
if ! (cd "$here/checker" && go build -o "$tmp/chk" .) 2>"$tmp/err"; then
  cat "$tmp/err"; echo "the checker does not build"; exit 2
fi
"$tmp/chk" check "$1"
