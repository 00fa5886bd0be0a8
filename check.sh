#!/bin/bash
# check.sh ID quick|thorough  - decide one property for the code now in /repo
# check.sh --build            - only build the engine
cd "$(dirname "$0")" || exit 2
here=$PWD
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export PATH=$PATH:/usr/local/go/bin:/opt/veriftools/bin
mkdir -p .bin evidence || exit 2
(cd engine && go build -o "$here/.bin/engine.$$" . && mv "$here/.bin/engine.$$" "$here/.bin/engine") || exit 2
[ "$1" = --build ] && exit 0
tier=${2:-quick}
exec .bin/engine -repo "${REPO:-/repo}" -verif "$here" -id "$1" -tier "$tier"
