#!/bin/bash
# Builds the analyzer.
cd "$(dirname "$0")/analyzer" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p ../bin ../evidence
go build -o ../bin/dawgcheck .
