#!/bin/bash
# setup.sh builds the tools once; every check rebuilds them against /repo.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p bin evidence
go build -o bin/gosym ./cmd/gosym
