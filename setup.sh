#!/bin/bash
# setup.sh: build the monitor once (fills the Go build cache); offline.
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh
mkdir -p ../build
go vet . && go build -o ../build/rvmon . && go build -race -o ../build/rvmon-race . && echo built
