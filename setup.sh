#!/bin/bash
# Builds the verifier (govc) from the committed sources and warms the build cache. Offline.
export HOME=/root GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOWORK=off
set -e
cd "$(dirname "$0")"
mkdir -p bin work evidence
(cd govc && go build -o ../bin/govc .)
