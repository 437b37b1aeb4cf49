#!/bin/bash
# build.sh WORKDIR: instruments the working tree of /repo and builds the simulator around it into WORKDIR/harness.
# Everything it writes is below WORKDIR (and the Go build cache).
set -euo pipefail
W=${1:?usage: build.sh WORKDIR}
SIM=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export GOPATH=${GOPATH:-/root/go}
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod

mkdir -p "$W/src" "$W/deps" "$W/instr" "$W/vsim" "$W/h"
cp "$SIM"/instr/*.go "$SIM"/instr/go.mod "$W/instr/"
cp "$SIM"/vsim/*.go "$SIM"/vsim/go.mod "$W/vsim/"
cp "$SIM"/harness/*.go "$W/h/"
(cd "$W/instr" && go build -trimpath -o "$W/instr/instr" .)

MODS=("github.com/webability-go/xcore=$REPO" "github.com/webability-go/xcore/v2=$REPO/v2")
reqs() { # the external requirements of a module, one per line
	awk '/^require[ \t]*\(/{b=1;next} b&&/^\)/{b=0;next} b{print $1,$2} /^require[ \t]+[^(]/{print $2,$3}' "$1" | grep -v '^//' | grep -v '^github.com/webability-go/xcore' || true
}
{
	echo "module deps"; echo; echo "go 1.21"; echo
	reqs "$REPO/v2/go.mod" | sed 's/^/require /'
} > "$W/deps/go.mod"
cat "$REPO/go.sum" "$REPO/v2/go.sum" "$SIM/gosum.txt" | sort -u > "$W/deps/go.sum"
echo "package deps" > "$W/deps/deps.go"
IMPORTS=$("$W/instr/instr" -imports "${MODS[@]}")
# shellcheck disable=SC2086
(cd "$W/deps" && go list -trimpath -export -deps -json=ImportPath,Export $IMPORTS) > "$W/deps.json"

# library packages with plain mutable data, instrumented as well
ROOT=$(go env GOROOT)
if echo "$IMPORTS" | grep -q '^container/'; then
	(cd "$W/deps" && go list -trimpath -export -deps -json=ImportPath,Export sort container/list container/ring container/heap) > "$W/lib.json"
	for l in list ring heap; do
		mkdir -p "$W/lib/$l" "$W/vsim/lib/$l"
		cp "$ROOT/src/container/$l/$l.go" "$W/lib/$l/"
		"$W/instr/instr" -deps "$W/lib.json" -out "$W/lib/$l.out" "vsim/lib/$l=$W/lib/$l"
		cp "$W/lib/$l.out/0/"*.go "$W/vsim/lib/$l/"
	done
fi

"$W/instr/instr" -deps "$W/deps.json" -out "$W/src" "${MODS[@]}"
modfile() { # name, source go.mod
	echo "module $1"; echo; echo "go 1.21"; echo; echo "require vsim v0.0.0"
	reqs "$2" | sed 's/^/require /'
}
modfile github.com/webability-go/xcore "$REPO/go.mod" > "$W/src/0/go.mod"
modfile github.com/webability-go/xcore/v2 "$REPO/v2/go.mod" > "$W/src/1/go.mod"
{
	echo "module harness"; echo; echo "go 1.21"; echo
	echo "require vsim v0.0.0"
	echo "require github.com/webability-go/xcore v0.0.0"
	echo "require github.com/webability-go/xcore/v2 v2.0.0"
	reqs "$REPO/v2/go.mod" | sed 's/^/require /'
	echo "replace vsim => ../vsim"
	echo "replace github.com/webability-go/xcore => ../src/0"
	echo "replace github.com/webability-go/xcore/v2 => ../src/1"
} > "$W/h/go.mod"
cp "$W/deps/go.sum" "$W/h/go.sum"
(cd "$W/h" && go build -trimpath -o "$W/harness" .)
