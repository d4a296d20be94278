#!/bin/bash
# builds the analyser from the committed sources (offline)
set -e
cd "$(dirname "$0")/fcheck"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
mkdir -p ../bin
go build -o "../bin/fcheck.$$" .
mv -f "../bin/fcheck.$$" ../bin/fcheck
