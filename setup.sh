#!/bin/bash
# Builds the verifier from the committed files.
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB=* GONOSUMCHECK=1
mkdir -p bin evidence
cd gv && go build -o ../bin/gv.tmp . && mv ../bin/gv.tmp ../bin/gv
