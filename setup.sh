#!/bin/bash
# Checks that the analyser builds, offline, from the committed files.
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
cd "$here/engine"
go build -o /dev/null .
