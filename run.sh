#!/bin/bash
# usage: run.sh <property id>...   Decides the properties from /repo's current source.
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
export GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOFLAGS= GOWORK=off
mkdir -p bin evidence
if [ ! -x bin/vt ] || [ -n "$(find tool -newer bin/vt -name '*.go' -print -quit)" ]; then
	tmp=bin/vt.$$
	(cd tool && go build -mod=vendor -o "$here/$tmp" .) || { echo "run.sh: cannot build the analyser" >&2; exit 2; }
	mv -f "$tmp" bin/vt
fi
[ "${1:-}" = "--build" ] && exit 0
VT_OUT="${VT_OUT:-$here}" exec bin/vt "$@"
