#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && export PATH="$d:$PATH" && break; done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
bin="$here/bin/govx"
if [ ! -x "$bin" ]; then
  tmp="$(mktemp -d)"
  trap 'rm -rf "$tmp"' EXIT
  bin="$tmp/govx"
  (cd "$here/govx" && go build -o "$bin" .) || exit 2
fi
"$bin" check -repo /repo -verif "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
