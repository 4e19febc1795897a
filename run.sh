#!/bin/bash
# usage: run.sh <property> [quick|thorough]; rebuilds the analyzer and checks /repo's current source.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
mkdir -p bin evidence
( flock 9; cd analyzer && go build -o ../bin/an . ) 9>bin/.lock || exit 2
[ -n "$1" ] || exit 0
VERIF_DIR="$PWD" exec bin/an -check "$@"
