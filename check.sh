#!/bin/bash
# check.sh ID: decide one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 1
here=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p evidence bin
if ! (cd analyzer && go build -o ../bin/dawgcheck .) ; then
	echo "cannot build the analyser" >&2
	exit 2
fi
exec bin/dawgcheck -repo /repo -verif "$here" -prop "$1"
