#!/bin/bash
# check.sh ID quick|thorough            decides property ID on /repo's working tree
# check.sh ID replay FILE               replays a reported counterexample
# check.sh --build                      builds the engine only
cd "$(dirname "$0")" || exit 2
V=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off HOME=${HOME:-/root}
if [ ! -x "$V/bin/engine" ] || [ -n "$(find "$V/engine" -name '*.go' -newer "$V/bin/engine" | head -1)" ]; then
	mkdir -p "$V/bin"
	(cd "$V/engine" && go build -o "$V/bin/engine.new.$$" . && mv "$V/bin/engine.new.$$" "$V/bin/engine") || exit 2
fi
[ "$1" = --build ] && exit 0
case "$2" in
replay) exec "$V/bin/engine" -p "$1" -verif "$V" -repo "${VERIF_REPO:-/repo}" -replay "$3" ;;
thorough) exec "$V/bin/engine" -p "$1" -verif "$V" -repo "${VERIF_REPO:-/repo}" -tier thorough ;;
*) exec "$V/bin/engine" -p "$1" -verif "$V" -repo "${VERIF_REPO:-/repo}" -tier quick ;;
esac
