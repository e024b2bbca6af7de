#!/bin/bash
# Warms the build cache; the checks build what they need themselves.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
cd "$here/harness" && go vet . && go test -c -o /dev/null . && CGO_ENABLED=1 go test -race -c -o /dev/null .
