#!/bin/bash
# check.sh <property> <harness package>[,<another>] [quick|thorough]: decides one property.
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
[ -x .build/engine ] || bash setup.sh >/dev/null 2>&1
exec .build/engine -root "$PWD" -id "$1" -pkg "./${2//,/,./}" -tier "${3:-${VERIF_TIER:-quick}}"
