#!/bin/bash
# eng.sh <id> <pkg> <harness> [engine flags]: explores one harness (development aid).
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
id=$1 pkg=$2 h=$3; shift 3
exec .build/engine -root "$PWD" -id "$id" -pkg "./$pkg" -only "$h" "$@"
