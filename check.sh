#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
bin="$here/bin/analyzer"
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -maxdepth 1 -name '*.go' -newer "$bin" -print -quit)" ]; then
  bash "$here/setup.sh" || exit 2
fi
exec "$bin" check "$1" "${2:-quick}"
