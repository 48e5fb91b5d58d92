#!/bin/bash
# exit 0: the property held in this demonstration; non-zero: it did not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOPROXY=off GOTOOLCHAIN=local
d=$(mktemp -d "${TMPDIR:-/tmp}/spagodemo-XXXXXX") || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go.txt" "$d/main.go"
cp "$repo/go.sum" "$d/go.sum"
sed -e "s#^module .*#module demo#" "$repo/go.mod" > "$d/go.mod"
printf 'require github.com/nlpodyssey/spago v0.0.0\nreplace github.com/nlpodyssey/spago => %s\n' "$repo" >> "$d/go.mod"
cd "$d" || exit 3
go build  -o "$d/demo" . || exit 4
 timeout 120 "$d/demo"
