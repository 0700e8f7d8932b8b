#!/bin/sh
# Builds everything once so that a broken toolchain shows up early; the checks build on their own.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
W=$(mktemp -d "${TMPDIR:-/tmp}/gosym.XXXXXX")
trap 'rm -rf "$W"' EXIT
(cd engine && CGO_ENABLED=0 go build -o "$W/gosym" .)
"$W/gosym" -verif "$PWD" -gen
(cd harness && CGO_ENABLED=0 go build -o "$W/run" ./run)
