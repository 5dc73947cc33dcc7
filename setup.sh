#!/bin/bash
# Builds the verification condition generator from the committed sources.
. "$(dirname "$0")/env.sh"
cd /verif/govc && GOFLAGS=-mod=vendor go build -o /verif/bin/govc .
