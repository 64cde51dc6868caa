#!/bin/bash
# builds the verifier from the committed sources, offline
cd "$(dirname "$0")/govc" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
if [ -x ../bin/govc ] && [ -z "$(find . -newer ../bin/govc -name '*.go' -print -quit)" ]; then exit 0; fi
mkdir -p ../bin
go build -o ../bin/govc .
