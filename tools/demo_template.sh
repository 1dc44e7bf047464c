#!/bin/bash
# runs demo.go (beside this file) as a program inside the module in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$tmp"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOMODCACHE=/root/go/pkg/mod
cp go.mod "$tmp/r.mod"; cp "$here/demo.sum" "$tmp/r.sum"
export GOFLAGS="-mod=mod -modfile=$tmp/r.mod"
echo "{\"Replace\":{\"$PWD/zz_demo/main.go\":\"$here/demo.go\"}}" > "$tmp/ov.json"
go build -overlay "$tmp/ov.json" -o "$tmp/demo" ./zz_demo || exit 4
timeout 200 "$tmp/demo"
