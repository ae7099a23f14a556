#!/bin/bash
# Builds the symbolic executor (offline).
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p .build evidence
(cd engine && go build -o ../.build/engine.tmp.$$ . && mv ../.build/engine.tmp.$$ ../.build/engine)
# warm the build cache for the native replay programs
for p in hd hw ht; do
  [ -d harness/$p ] && (cd harness && go test -c -vet=off -o /dev/null ./$p) || true
done
exit 0
