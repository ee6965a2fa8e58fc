#!/bin/bash
# Warms the build cache: builds the harness once, plain and with -race.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
WORK=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
bash "$HERE/build.sh" "$WORK" "${VERIF_REPO:-/repo}" ALL
