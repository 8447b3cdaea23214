#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
# Builds the analyser from /verif/checker and decides one property of /repo's
# current source. Exit 0: it holds; exit 1 and a VIOLATION line: it does not.
cd "$(dirname "$0")" || exit 2
root=$(pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off CGO_ENABLED=0 LC_ALL=C.UTF-8
export GOCACHE=${VERIF_GOCACHE:-$root/.cache/go-build}
unset FBDPATH
tier=${2:-${VERIF_TIER:-quick}}
bin=$root/.cache/fbdlcheck
mkdir -p "$root/.cache" "$root/evidence"
if [ ! -x "$bin" ] || [ -n "$(find checker \( -name '*.go' -o -name 'go.*' \) -newer "$bin" 2>/dev/null)" ]; then
	(cd checker && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || {
		echo "the analyser does not build"
		exit 2
	}
fi
[ "$1" = build ] && exit 0
export GOMEMLIMIT=20GiB
exec "$bin" -repo /repo -root "$root" -tier "$tier" "$1"
