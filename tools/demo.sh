#!/bin/bash
# Runs demo_test.go (beside this script) in the package of the repository. Exit 0: it passes.
d="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)" || exit 3
trap 'chmod -R u+w "$w"; rm -rf "$w"' EXIT
pkg=github.com/johnnadratowski/golang-neo4j-bolt-driver
sub="$(cat "$d/package" 2>/dev/null || echo .)"
mkdir -p "$w/gopath/src/$(dirname $pkg)" && ln -s /repo "$w/gopath/src/$pkg"
export GOPATH="$w/gopath" GO111MODULE=off GOENV=off GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOCACHE="$w/cache"
unset NEO4J_BOLT ENSURE_NEO4J_BOLT RECORD_OUTPUT BOLT_DRIVER_LOG
cd "$w/gopath/src/$pkg" || exit 3
p="$w/gopath/src/$pkg/$sub"
printf '{"Replace": {' >"$w/overlay.json"
sep=
for f in "$d"/*_test.go; do
  printf '%s"%s/zz_%s": "%s"' "$sep" "$p" "$(basename "$f")" "$f" >>"$w/overlay.json"
  sep=,
done
printf '}}' >>"$w/overlay.json"
go test $(cat "$d/flags" 2>/dev/null) -overlay "$w/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' "./$sub"
