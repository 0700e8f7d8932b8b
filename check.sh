#!/bin/sh
# check.sh <property> [quick|thorough]   or   check.sh -replay <file>
set -u
cd "$(dirname "$0")" || exit 2
V=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
W=$(mktemp -d "${TMPDIR:-/tmp}/gosym.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT INT TERM
(cd engine && CGO_ENABLED=0 go build -o "$W/gosym" .) || exit 2
if [ "$1" = "-replay" ]; then
  "$W/gosym" -verif "$V" -replay "$2"
else
  "$W/gosym" -verif "$V" -tier "${2:-quick}" "$1"
fi
