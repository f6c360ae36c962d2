#!/bin/bash
# check.sh <property id>: builds the harness and decides one property on
# /repo's working tree. Tier and seed come from VERIF_TIER and VERIF_SEED.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_DIR="$here"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/harness" && go build -o "$tmp/harness" .) || exit 2
export TMPDIR="$tmp"
"$tmp/harness" "$@"
