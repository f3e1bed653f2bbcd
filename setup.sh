#!/bin/bash
# Builds the verifier from the committed (vendored) sources.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p bin evidence
cd gv
GOWORK=off GOFLAGS=-mod=vendor go build -o ../bin/gv .
