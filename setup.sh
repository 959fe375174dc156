#!/bin/bash
# Builds the verifier from the committed sources (offline).
cd "$(dirname "$0")/tool" || exit 2
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local GOWORK=off
export PATH=/opt/veriftools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
mkdir -p ../bin
go build -o ../bin/govc .
