#!/bin/bash
# Usage: run.sh ID...   Builds the analyser from its vendored sources and decides the properties on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
export GOCACHE="${GOCACHE:-$here/bin/gocache}"
mkdir -p "$here/bin" "$here/evidence"
if ! (cd "$here/tool" && go build -o "$here/bin/ivycheck.$$" . && mv -f "$here/bin/ivycheck.$$" "$here/bin/ivycheck"); then
	echo "analyser does not build"; exit 2
fi
unset GOFLAGS
[ "$1" = --build ] && exit 0
VERIF_DIR="$here" exec "$here/bin/ivycheck" "$@"
