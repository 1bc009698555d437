#!/bin/sh
# check.sh PROPERTY [flags]   decide a property (see sim/cmd/check)
# check.sh -replay FILE       execute a replay file
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p .build || exit 2
cp sim/go.mod .build/go.mod && cp sim/go.sum .build/go.sum || exit 2
(cd sim && go build -modfile "$V/.build/go.mod" -o "$V/.build/check" ./cmd/check) || exit 2
case "$1" in
-*) exec "$V/.build/check" -verif "$V" "$@" ;;
*) P=$1; shift; exec "$V/.build/check" -verif "$V" -prop "$P" "$@" ;;
esac
