#!/bin/bash
cd "$(dirname "$0")/engine" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p ../bin ../evidence
go build -o ../bin/eng .
