#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the analyser from /verif/engine and decides the property on /repo.
# Exit 0: holds. Exit 1 with a VIOLATION line: broken. Anything else: no verdict.
here="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-quick}"
bin="$(mktemp -d /tmp/vcheck.XXXXXX)" || exit 2
trap 'rm -rf "$bin"' EXIT
cd "$here/engine" || exit 2
export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local CGO_ENABLED=0
go build -o "$bin/vt" . || exit 2
"$bin/vt" -property "$1" -tier "$tier" -repo /repo -verif "$here"
