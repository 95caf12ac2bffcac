#!/bin/bash
# builds the checker from the committed sources, offline
set -e
cd /verif/checker
mkdir -p ../bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor
go build -o ../bin/valuecheck .
