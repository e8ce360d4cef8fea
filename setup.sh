#!/bin/bash
# Builds the analyser once; check.sh builds it again from the same sources (cached).
cd "$(dirname "$0")/analyzer" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod" GOPROXY=off GOTOOLCHAIN=local
mkdir -p ../bin && go build -o ../bin/vtdcheck . && rm -f ../bin/vtdcheck
