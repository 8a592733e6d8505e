#!/bin/bash
# setup.sh: builds the monitors once, plain and with the race detector, so that later builds find a warm cache.
cd "$(dirname "$0")/.." || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cd harness && go vet ./... && go build -o "$tmp/vrun" ./cmd/vrun && CGO_ENABLED=1 go build -race -o "$tmp/vrun-race" ./cmd/vrun && GOARCH=386 CGO_ENABLED=0 go build -o "$tmp/vrun386" ./cmd/vrun
