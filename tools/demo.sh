#!/bin/bash
# Runs demo_test.go (beside this file) as a test of the ecore package.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
export HOME="${HOME:-/root}"
[ -d /opt/veriftools/go1.23.12/bin ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOENV=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\"Replace\": {\"$r/ecore/zz_demo_test.go\": \"$d/demo_test.go\"}}" > "$t/o.json"
go test -vet=off -overlay "$t/o.json" -count=1 -timeout 120s -run '^TestZZDemo$' ./ecore
