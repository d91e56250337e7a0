#!/bin/bash
# check.sh ID [analyzer flags]: decide one property (or "all") from /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
id=$1; shift
bin=$here/.build/analyzer
mkdir -p "$here/.build"
(cd "$here/analyzer" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "the analyser does not build"; exit 3; }
exec "$bin" -repo /repo -verif "$here" "$@" "$id"
