#!/bin/bash
# run.sh PROPERTY [TIER]: builds the explorer from /repo's current tree and
# decides one property. Exit status: 0 held, 1 violated, other: check error.
# (XGEN_REPO and VERIF_OUT are for trying out planted bugs on a copy.)
set -u
cd "$(dirname "$0")" || exit 2
VERIF_DIR=${VERIF_OUT:-$PWD}; export VERIF_DIR
repo=${XGEN_REPO:-/repo}
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on
bin=$(mktemp -d /tmp/xgenmc.bin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
chmod 755 "$bin"; XGEN_BIN=$bin/xgen; export XGEN_BIN
mod=$bin/go.mod
sed "s#=> /repo#=> $repo#" mc/go.mod >"$mod" && cp mc/go.sum "$bin/go.sum" || exit 2
build() { go build -modfile "$mod" "$@"; }
case $prop in
C11|C12|C13) # with the environment under control
	race=; [ "$prop" = C13 ] && race=-race GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0" && export GORACE
	( cd mc && mkdir "$bin/src" && build -o "$bin/instr" ./cmd/instr && "$bin/instr" -mod "$mod" -out "$bin/src" &&
	build $race -overlay "$bin/src/overlay.json" -o "$bin/mc" ./cmd/mc && build -overlay "$bin/src/overlay.json" -o "$bin/xgen" github.com/xuri/xgen/cmd/xgen ) ;;
*)
	( cd mc && build -o "$bin/mc" ./cmd/mc && build -o "$bin/xgen" github.com/xuri/xgen/cmd/xgen ) ;;
esac || { echo "check error: build failed"; exit 2; }
"$bin/mc" -prop "$prop" -tier "$tier" "$@"
