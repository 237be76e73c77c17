#!/bin/bash
# usage: check.sh <property> <quick|thorough> [engine flags]
# Builds the engine (if its sources changed) and decides one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
p=$1; t=$2; shift 2
mkdir -p bin evidence
(cd engine && go build -o ../bin/eng.$$ . ) && mv -f bin/eng.$$ bin/eng || { echo "engine does not build"; exit 2; }
exec ./bin/eng -prop "$p" -tier "$t" "$@"
