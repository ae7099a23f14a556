#!/bin/bash
# replay.sh ./<harness package> <file>: runs one counterexample natively.
f=$(realpath "$2"); cd "$(dirname "$0")/harness"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
VERIF_VALUES=$f ND_TRACE=1 go test -count=1 -vet=off -run '^TestReplay$' -v "$1"
