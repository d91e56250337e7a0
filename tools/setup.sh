#!/bin/bash
# builds the analyser from the committed files
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
mkdir -p "$here/.build" "$here/evidence"
cd "$here/analyzer" && go build -o "$here/.build/analyzer" .
