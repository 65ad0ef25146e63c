#!/bin/bash
# Builds the analyser once, so that its compiled packages are cached.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
mkdir -p .build evidence
cd analysis && go build -o ../.build/setup . && rm -f ../.build/setup
