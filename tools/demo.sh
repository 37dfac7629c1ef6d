#!/bin/bash
# Runs demo_test.go in a package of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME=${HOME:-/root}
cp go.mod go.sum "$t/"
pkg=$(cat "$here/pkg" 2>/dev/null || echo .)
printf '{"Replace": {"%s/%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$pkg" "$here" > "$t/o.json"
TMPDIR=$t timeout 280 go test -tags verif -modfile "$t/go.mod" -overlay "$t/o.json" -vet=off -count=1 -run '^TestDemo$' "./$pkg"
