#!/bin/bash
# run.sh <property>...|all : builds the checker from the vendored sources when needed and runs it on /repo.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
bin=bin/checker
if [ ! -x $bin ] || [ -n "$(find checker -newer $bin \( -name '*.go' -o -name go.mod \) -print -quit)" ]; then
  mkdir -p bin
  tmp=bin/.checker.$$
  (cd checker && GOFLAGS=-mod=vendor go build -o ../$tmp .) || { echo "cannot build the checker"; exit 2; }
  mv $tmp $bin
fi
[ "$1" = build ] && exit 0
export VERIF_DIR="$PWD"
exec $bin "$@"
