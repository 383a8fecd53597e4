#!/bin/bash
# builds the analyzer, offline, from the committed (vendored) sources
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/bin" "$here/evidence" || exit 2
for v in 1.27.3 1.26.10; do
  if [ -x "/opt/veriftools/go$v/bin/go" ]; then export PATH="/opt/veriftools/go$v/bin:$PATH"; break; fi
done
cd "$here/analyzer" && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$here/bin/analyzer.$$" . && mv -f "$here/bin/analyzer.$$" "$here/bin/analyzer"
