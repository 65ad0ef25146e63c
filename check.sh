#!/bin/bash
# check.sh PROPERTY [TIER]: builds the analyser and decides one property.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
mkdir -p "$VERIF/.build"
BIN=$(mktemp "$VERIF/.build/mintcheck.XXXXXX") || exit 2
trap 'rm -f "$BIN"' EXIT
(cd analysis && go build -o "$BIN" .) || exit 2
"$BIN" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${MINT_REPO:-/repo}" -verif "$VERIF"
