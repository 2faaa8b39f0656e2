#!/bin/bash
# check.sh ID [ID...]: decide the properties from /repo's current source.
# Builds the analyser from /verif/gsa first if it is missing or older than its source.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
bin=bin/gsa
if [ ! -x $bin ] || [ -n "$(find gsa -newer $bin -name '*.go' -print -quit)" ]; then
  mkdir -p bin
  (cd gsa && go build -o ../bin/gsa.$$ .) || { echo "the analyser does not build"; exit 2; }
  mv -f bin/gsa.$$ $bin
fi
[ "$1" = build ] && exit 0
unset GOFLAGS
exec $bin check "$@"
