#!/bin/sh
# check.sh ID            decide one property (tier from VERIF_TIER, default quick)
# check.sh replay FILE   run a reported counterexample against the real code
# check.sh setup         build the engine
# Everything is built from /repo's and /verif's current files; /repo's tracked files are not touched.
cd "$(dirname "$0")" || exit 2
VERIF_ROOT=$(pwd)
export VERIF_ROOT
export HOME="${HOME:-/root}"
if [ -d /opt/veriftools/go1.27.3 ]; then
	export GOROOT=/opt/veriftools/go1.27.3
	export PATH="$GOROOT/bin:$PATH"
fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off GOSUMDB=off
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
# The project ignores go.mod and go.sum in git; put them back where they are missing.
[ -e /repo/go.mod ] || cp tools/repo-gomod/go.mod /repo/ || exit 2
[ -e /repo/go.sum ] || cp tools/repo-gomod/go.sum /repo/ || exit 2
mkdir -p bin evidence
go build -o bin/engine ./engine || exit 2
case "$1" in
setup) exit 0 ;;
replay) exec bin/engine replay "$2" ;;
*) exec bin/engine check "$1" ;;
esac
