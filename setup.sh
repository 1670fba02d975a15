#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && export PATH="$d:$PATH" && break; done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
mkdir -p "$here/bin"
cd "$here/govx" && go build -o "$here/bin/govx" .
