#!/bin/bash
# run.sh ID [thorough]: decides property ID for the current source of /repo
cd "$(dirname "$0")" || exit 2
export FCHECK_VERIF="$PWD"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
if [ ! -x bin/fcheck ] || [ -n "$(find fcheck -newer bin/fcheck -name '*.go' -print -quit)" ]; then
	./build.sh || exit 2
fi
exec bin/fcheck "$@"
