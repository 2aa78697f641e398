#!/bin/bash
# Warms the build cache: checks build what they need themselves
cd "$(dirname "$0")/.." || exit 1
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off PATH="/usr/local/go/bin:/usr/local/bin:$PATH"
T=$(mktemp -d) || exit 1
(cd gocv && go build -o "$T/gocv" .) && (cd harness && go build -o "$T/harness" .)
R=$?
rm -rf "$T"
mkdir -p evidence
exit $R
