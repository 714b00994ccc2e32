#!/bin/bash
# Builds the simulated programs (from /repo's working tree) and the simulator.
set -e
cd "$(dirname "$0")"
VERIF=$(cd .. && pwd)
REPO=${REPO:-/repo}
B=${VERIF_BUILD:-$VERIF/.build}
mkdir -p "$B/bin" "$B/overlay"
GOROOT_=/opt/veriftools/go1.24.13
export HOME=/root PATH=$GOROOT_/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GODEBUG=goindex=0
export GOTOOLCHAIN=local GOPROXY=off GOMODCACHE=/root/go/pkg/mod GOCACHE=$B/gocache CGO_ENABLED=0 GOFLAGS=
python3 overlay/gen.py $GOROOT_ "$B/overlay" >/dev/null
(cd "$REPO/go" && go build -mod=readonly -trimpath -overlay "$B/overlay/overlay.json" -tags faketime -o "$B/bin/" ./cmd/...)
(cd world && go build -trimpath -o "$B/crlsim" .)
