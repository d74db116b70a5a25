#!/bin/sh
# check.sh <property id> [engine flags]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
mkdir -p build
if [ ! -x build/vengine ] || [ -n "$(find engine -maxdepth 1 -name '*.go' -newer build/vengine 2>/dev/null | head -1)" ]; then
  (cd engine && GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o ../build/vengine.$$ . && mv ../build/vengine.$$ ../build/vengine) || exit 2
fi
p=$1
[ "$p" = setup ] && exit 0
shift
exec build/vengine -verif "$PWD" -prop "$p" "$@"
