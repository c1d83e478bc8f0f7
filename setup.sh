#!/bin/bash
# Builds the symbolic engine from the committed sources into /verif/bin (offline).
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GONOSUMDB='*' GOFLAGS=-mod=mod GOTOOLCHAIN=local
mkdir -p bin evidence
cd engine
go1.26 build -o ../bin/symgo.new .
mv ../bin/symgo.new ../bin/symgo
