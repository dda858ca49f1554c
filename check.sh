#!/bin/bash
# usage: check.sh <property> [quick|thorough]   (or: check.sh build)
# Rebuilds the verifier if needed and decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
V="$(pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
if [ ! -x bin/gov ] || [ -n "$(find tool -name '*.go' -newer bin/gov | head -1)" ]; then
  mkdir -p bin
  ( cd tool && GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0 go build -o "$V/bin/gov.$$" . ) || exit 2
  mv "$V/bin/gov.$$" "$V/bin/gov"
fi
[ "$1" = build ] && exit 0
exec ./bin/gov -check -verif "$V" -repo /repo -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
