#!/bin/bash
# check.sh PROPERTY: rebuilds the simulator from the repository's working tree
# and runs the check of one property.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export HOME="${HOME:-/root}"
mkdir -p .work
(cd sim && go build -o ../.work/simcheck ./cmd/simcheck) || exit 2
exec .work/simcheck "$@"
