#!/bin/bash
# Nothing to install: checks that the tools are there and that the driver builds.
set -e
cd "$(dirname "$0")/.."
java -version >/dev/null 2>&1
go version
test -f /opt/veriftools/tla/tla2tools.jar
tmp=$(mktemp -d)
cp harness/go.mod "$tmp/m.mod"; cp /repo/go.sum "$tmp/m.sum"
(cd harness && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -modfile "$tmp/m.mod" -o "$tmp/vh" .)
rm -rf "$tmp"
echo setup ok
