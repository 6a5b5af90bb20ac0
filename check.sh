#!/bin/sh
# usage: check.sh <property> [quick|thorough]    run a check against /repo's working tree
#        check.sh replay <file>                  replay a recorded violation
#        check.sh setup                          compile everything once (warms the build cache)
# Builds the harness and the library from /repo into a scratch directory that
# is removed afterwards.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
if [ -d /opt/veriftools/go1.26.10 ]; then
	export GOROOT=/opt/veriftools/go1.26.10
	PATH="$GOROOT/bin:$PATH"; export PATH
fi
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
TMP=$(mktemp -d /tmp/mc.XXXXXX) || exit 3
trap 'rm -rf "$TMP"' EXIT
trap 'exit 3' INT TERM HUP
cd "$HERE/mc" || exit 3
PROP=${1:-}
TIER=${2:-${VERIF_TIER:-quick}}

build() { # build OUT [extra args]
	out=$1; shift
	go build -o "$out" "$@" . || { echo "check.sh: build failed" >&2; exit 3; }
}
instrumented() { # build with every statement of the library a scheduling point
	go run ./cmd/instr -repo /repo -out "$TMP/instr" >&2 || { echo "check.sh: instrumentation failed" >&2; exit 3; }
	CGO_ENABLED=1 build "$TMP/mc" -race -tags mcsched -overlay "$TMP/instr/overlay.json"
	# without the threshold every large allocation remaps shadow memory
	export GORACE="halt_on_error=1 exitcode=66 clear_shadow_mmap_threshold=1000000000"
}

case "$PROP" in
setup)
	build "$TMP/mc"
	"$TMP/mc" -list >/dev/null || exit 3
	exit 0
	;;
replay)
	f=$TIER
	case "$(basename "$f")" in C24-*) instrumented ;; *) build "$TMP/mc" ;; esac
	"$TMP/mc" -out "$HERE" -replay "$f"
	exit $?
	;;
C24)
	instrumented
	;;
C*)
	build "$TMP/mc"
	;;
*)
	echo "usage: check.sh <property> [quick|thorough]" >&2
	exit 3
	;;
esac
shift; [ $# -gt 0 ] && shift
"$TMP/mc" -out "$HERE" -prop "$PROP" -tier "$TIER" "$@"
exit $?
