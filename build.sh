#!/bin/bash
# Builds the analyser, offline, from the committed files (dependencies are in sa/vendor).
set -e
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor GOSUMDB=off
mkdir -p "$here/bin"
cd "$here/sa"
go build -o "$here/bin/sa" .
