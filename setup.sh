#!/bin/bash
# Builds the analyser once, as every check does.
cd "$(dirname "$0")/engine" || exit 1
export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local CGO_ENABLED=0
exec go build -o /dev/null .
