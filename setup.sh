#!/bin/bash
# Builds the checker. Offline; uses the module cache only.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOWORK=off GOMODCACHE=/root/go/pkg/mod GOFLAGS=-mod=readonly
go build -buildvcs=false -o bin/gosym ./cmd/gosym
