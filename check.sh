#!/bin/bash
# check.sh PROPERTY TIER: rebuilds the harnesses with /repo's current working
# tree and decides one property.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p bin evidence
tmp=bin/gosym.$$
go build -o "$tmp" ./cmd/gosym || exit 2
mv -f "$tmp" bin/gosym
exec bin/gosym check "$@"
