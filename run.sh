#!/bin/bash
# bash run.sh <property> [quick|thorough] [extra args]: build the checker from
# /repo's current working tree and run the check of one property.
# bash run.sh -setup: only warm the build cache.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOENV=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export MC_ROOT=$here
mkdir -p "$here/.build" || exit 2
bin=$here/.build/check.$$
trap 'rm -f "$bin"' EXIT
repo=$(sed -n 's#^replace github.com/masagroup/soft.go => ##p' "$here/mc/go.mod")
build() {
	cd "$here/mc" || return 1
	if [ "$id" = C21 ] || [ "$id" = -setup ]; then
		# schedules: the locks of the code are the scheduler's, races are detected
		go run ./cmd/overlay "$repo/ecore" "$tmp/overlay" && CGO_ENABLED=1 go build -race -gcflags=all=-d=checkptr=0 -tags sched -overlay "$tmp/overlay/overlay.json" -o "$bin" ./cmd/check || return 1
	fi
	[ "$id" = C21 ] || go build -o "$bin" ./cmd/check
}
tmp=$here/.build/tmp.$$
mkdir -p "$tmp" || exit 2
trap 'rm -rf "$bin" "$tmp"' EXIT
export GORACE="log_path=$tmp/race halt_on_error=0 exitcode=0"
(build) >&2 || { echo "build failed" >&2; exit 2; }
[ "$id" = -setup ] && exit 0
"$bin" -tier "$tier" "$@" "$id"
