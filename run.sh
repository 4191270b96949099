#!/bin/bash
# usage: run.sh <property-id> [quick|thorough]   (or: run.sh build)
cd "$(dirname "$0")" || exit 2
build() {
  ( cd engine && PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT= GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off \
      go build -o ../.bin/gosym.tmp.$$ . && mv ../.bin/gosym.tmp.$$ ../.bin/gosym )
}
mkdir -p .bin
if [ ! -x .bin/gosym ] || [ -n "$(find engine -newer .bin/gosym \( -name '*.go' -o -name 'go.*' \) -print -quit)" ] || [ "$1" = build ]; then
  build >&2 || { echo "engine build failed" >&2; exit 2; }
fi
[ "$1" = build ] && exit 0
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec .bin/gosym -tier "$VERIF_TIER" check "$1"
