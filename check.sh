#!/bin/bash
# usage: check.sh <property> [quick|thorough] [engine flags...]
# Builds the engine when its sources changed, then decides one property on /repo.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
p="$1"; shift
tier=quick
case "$1" in quick|thorough) tier="$1"; shift;; esac
mkdir -p "$here/bin"
(
  flock 9
  if [ ! -x "$here/bin/vf" ] || [ -n "$(find "$here/engine" -newer "$here/bin/vf" -type f -print -quit)" ]; then
    (cd "$here/engine" && go build -o "$here/bin/vf.new" . && mv "$here/bin/vf.new" "$here/bin/vf") || exit 3
  fi
) 9>"$here/bin/.lock" || { echo "ERROR: engine build failed"; exit 3; }
[ "$p" = build ] && exit 0
exec "$here/bin/vf" -p "$p" -tier "$tier" -verif "$here" "$@"
