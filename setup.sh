#!/bin/bash
# Builds the explorer once so that the checks find a warm build cache.
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$(dirname "$0")/mc" && go build -o /dev/null .
