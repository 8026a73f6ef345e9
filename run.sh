#!/bin/bash
# run.sh check <property>         run one check (VERIF_SEED, VERIF_TIER)
# run.sh replay <file>            replay a violation
# run.sh build <dir>              build the simulator binaries into a directory and keep them
# The simulated program is built from /repo's current working tree every time.
set -u
cd "$(dirname "$0")" || exit 3
VERIF=$(pwd)
REPO=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
export GOMAXPROCS=${VERIF_GOMAXPROCS:-}
[ -n "$GOMAXPROCS" ] || unset GOMAXPROCS
what=${1:-}; arg=${2:-}
mkdir -p "$VERIF/build"
B=
cleanup() { [ -n "$B" ] && rm -rf "$B"; }
fail() { echo "run.sh: $*" >&2; cleanup; exit 3; }

instr() {
	(cd "$VERIF/instr" && go build -o "$B/verifinstr" .) || fail "cannot build the instrumenter"
	mkdir -p "$B/src"
	"$B/verifinstr" -repo "$REPO" -verif "$VERIF" -out "$B/src" || fail "instrumentation failed"
}
build_plain() {
	(cd "$B/src" && go build -o "$B/simrun" verifharness/cmd/simrun) || fail "the instrumented program does not build"
}
build_race() {
	local pool; pool="$(go env GOROOT)/src/sync/pool.go"
	printf '{"Replace":{"%s":"%s"}}\n' "$pool" "$VERIF/harness/racepool/pool.go.txt" > "$B/overlay.json"
	(cd "$B/src" && go build -race -overlay "$B/overlay.json" -o "$B/simrun" verifharness/cmd/simrun) || fail "the instrumented program does not build with the race detector"
}

case "$what" in
check)
	B=$(mktemp -d "$VERIF/build/b.XXXXXX") || fail "mktemp"
	trap cleanup EXIT
	trap 'cleanup; exit 3' INT TERM
	instr
	case "$arg" in
	C05|C19) build_race ;;
	*) build_plain ;;
	esac
	"$B/simrun" check -prop "$arg" -verif "$VERIF"
	rc=$?
	cleanup
	[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=3
	exit $rc
	;;
replay)
	B=$(mktemp -d "$VERIF/build/b.XXXXXX") || fail "mktemp"
	trap cleanup EXIT
	instr
	if grep -q '"race": true' "$arg"; then build_race; else build_plain; fi
	"$B/simrun" replay "$arg"
	rc=$?
	cleanup
	exit $rc
	;;
build)
	B=$arg; mkdir -p "$B" || fail "mkdir"
	instr
	if [ "${3:-}" = race ]; then build_race; else build_plain; fi
	;;
setup)
	B=$(mktemp -d "$VERIF/build/b.XXXXXX") || fail "mktemp"
	trap cleanup EXIT
	instr; build_plain; build_race
	cleanup
	;;
*)
	echo "usage: run.sh check|replay|build|setup ..." >&2; exit 3 ;;
esac
