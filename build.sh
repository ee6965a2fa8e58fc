#!/bin/bash
# build.sh WORK REPO [ID]: builds the harness binaries into WORK/bin.
set -e
WORK=$1; REPO=$2; ID=$3
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$WORK/bin" "$WORK/h"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
cp "$HERE"/harness/*.go "$HERE"/harness/go.mod "$HERE"/harness/go.sum "$WORK/h/"
for d in "$HERE"/harness/*/; do [ -n "$(ls "$d"*.go 2>/dev/null)" ] && cp -r "$d" "$WORK/h/"; done
cd "$WORK/h"
# A scratch copy of x/crypto whose bcrypt runs 1/64 of the rounds and counts
# the nominal work (the API, formats and key handling are untouched).
CR=$(go list -m -f '{{.Dir}}' golang.org/x/crypto 2>/dev/null || true)
[ -n "$CR" ] || CR=$GOPATH/pkg/mod/golang.org/x/crypto@v0.0.0-20210813211128-0a44fdfbc16e
cp -r "$CR" "$WORK/xcrypto"
chmod -R u+w "$WORK/xcrypto"
python3 - "$WORK/xcrypto/bcrypt/bcrypt.go" <<'PY'
import sys,re
f=sys.argv[1]; s=open(f).read()
a='rounds = 1 << cost'
assert s.count(a)==1
s=s.replace(a,'rounds = 1 << bcryptShift(cost)')
s+='''
// WorkCounter sums the nominal rounds of all hash computations.
var WorkCounter uint64

func bcryptShift(cost uint32) uint32 {
	atomic.AddUint64(&WorkCounter, 1<<cost)
	if cost > 6 {
		return cost - 6
	}
	return 0
}
'''
s=re.sub(r'import \(', 'import (\n\t"sync/atomic"', s, count=1)
open(f,'w').write(s)
PY
go mod edit -replace "github.com/greenpau/go-identity=$REPO" -replace "golang.org/x/crypto=$WORK/xcrypto"
CGO_ENABLED=0 go build -o "$WORK/bin/verifharness" .
case "$ID" in
# blowfish works on local state only; left uninstrumented it costs a tenth.
C09|ALL) go build -race -gcflags=golang.org/x/crypto/blowfish=-race=false -o "$WORK/bin/verifharness.race" . ;;
esac
