#!/bin/bash
# check.sh <ID> [quick|thorough]: builds the harness against /repo's working
# tree in a scratch directory and runs the monitor of one property.
#   exit 0 held, 1 VIOLATION, 2 inconclusive / build failure
ID=${1:?usage: check.sh ID [tier]}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
WORK=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
if ! bash "$HERE/build.sh" "$WORK" "$REPO" "$ID" >"$WORK/build.log" 2>&1; then
  echo "INCONCLUSIVE: the harness does not build against $REPO"; tail -40 "$WORK/build.log"; exit 2
fi
RACE=""
[ -x "$WORK/bin/verifharness.race" ] && RACE="$WORK/bin/verifharness.race"
"$WORK/bin/verifharness" run -prop "$ID" -tier "$TIER" -seed "$SEED" -verif "$HERE" -race "$RACE" ${VERIF_ARGS:-}
exit $?
