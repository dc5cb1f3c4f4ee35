#!/bin/bash
# builds the verifier
cd "$(dirname "$0")/../gvc" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local /opt/veriftools/go1.27.3/bin/go build -o "${1:-/tmp/gvc}" .
