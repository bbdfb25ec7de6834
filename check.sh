#!/bin/bash
# check.sh <property>: builds the analyser from the committed source and runs one check on /repo.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p "$here/bin" "$here/evidence"
if ! (cd "$here/analyzer" && go build -o "$here/bin/dycheck" .); then
  echo "analyser does not build" >&2
  exit 2
fi
[ "$1" = setup ] && exit 0
cd "$here" && VERIF_DIR="$here" exec "$here/bin/dycheck" check "$1"
