#!/bin/bash
# Tries the machinery itself, not the library:
#  1. the instrumenter: packages full of Go constructs must behave under every
#     policy and seed as they do natively, and replay;
#  2. refactorings of /repo which keep the behaviour (benign/*.diff): every check
#     has to stay quiet on them (with a short wall limit, $2 seconds).
# usage: selftest/run.sh [instr|benign] [seconds] [workers] [name of one diff]
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
V=$(cd .. && pwd); S=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
rc=0
if [ "${1:-instr}" = instr ]; then
	(cd "$V/instr" && go build -o "$T/vi" .) || exit 3
	for p in a b; do
		mkdir -p "$T/r" "$T/out"
		cp -r fakerepo/$p fakerepo/m "$T/r/"
		printf 'go 1.24\n\nuse ./%s\nuse ./m\n' $p > "$T/r/go.work"
		sed -i "s/\"fa\"/f \"f$p\"/; s/fa\.Test/f.Test/" "$T/r/m/main.go"
		(cd "$T/r/m" && go run .) > "$T/native.txt" || exit 3
		rm -r "$T/r/m"; printf 'go 1.24\n\nuse ./%s\n' $p > "$T/r/go.work"
		"$T/vi" -repo "$T/r" -verif "$V" -out "$T/out" || exit 3
		mkdir "$T/out/h"; cp h/go.mod "$T/out/h/"; sed "s/\"fa\"/fa \"f$p\"/" h/main.go > "$T/out/h/main.go"
		(cd "$T/out" && sed -i 's#./verifgen#./verifgen\n\t./h#; /verif.harness/d' go.work && go run ./h "$T/native.txt") || rc=1
		rm -r "$T/r" "$T/out"
	done
fi
if [ "${1:-benign}" = benign ]; then
	for d in benign/${4:-*}.diff; do
		rm -rf "$T/w"; mkdir "$T/w"; git -C /repo archive HEAD | tar -x -C "$T/w"
		(cd "$T/w" && git init -q && git apply "$S/$d") || { echo "$d does not apply"; rc=1; continue; }
		for kind in plain race; do
			VERIF_REPO=$T/w "$V/run.sh" build "$V/build/st" $kind >/dev/null || { echo "$d does not build"; rc=1; break; }
			for c in $(sed -n 's/.*"property": "\(C..\)",/\1/p' "$V/MANIFEST.json"); do
				case $c in C05|C19) [ $kind = race ] || continue ;; *) [ $kind = plain ] || continue ;; esac
				[ "$(python3 -c "import json;print(any(x['property']=='$c' for x in json.load(open('$V/MANIFEST.json'))['checks']))")" = True ] || continue
				o=$("$V/build/st/simrun" check -prop $c -verif "$V" -workers ${3:-8} -wall ${2:-15} -evidence=false 2>&1) || rc=1
				echo "$d $c: $(echo "$o" | tail -1)"
			done
		done
	done
	rm -rf "$V/build/st"
fi
exit $rc
