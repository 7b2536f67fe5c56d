#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides a property of /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/engine" && go build -o "$tmp/vt" .) || exit 2
"$tmp/vt" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$here" -repo "${VT_REPO:-/repo}"
