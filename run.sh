#!/bin/bash
# usage: run.sh ID            run the check of a property (VERIF_TIER, VERIF_SEED)
#        run.sh replay FILE   run a single recorded case again
#        run.sh build         build only (used to warm the build cache)
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
. /opt/vp/env.sh >/dev/null 2>&1 || true
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off

tmp="$(mktemp -d "${TMPDIR:-/tmp}/rvbuild.XXXXXX")" || exit 2
trap 'rm -rf -- "$tmp"' EXIT

build() { # $1: extra flags
	(cd "$VERIF_DIR/harness" && go build $1 -o "$tmp/rvmon" .) || {
		echo "building the harness against /repo failed" >&2
		exit 2
	}
}

case "${1:-}" in
build)
	build ""
	build "-race"
	;;
replay)
	build ""
	"$tmp/rvmon" replay "$2"
	exit $?
	;;
"")
	sed -n 2,4p "${BASH_SOURCE[0]}" >&2
	exit 2
	;;
*)
	flags=""
	case "$1" in C18) flags="-race" ;; esac
	build "$flags"
	"$tmp/rvmon" run "$1"
	exit $?
	;;
esac
