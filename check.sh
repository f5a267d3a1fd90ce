#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property for /repo's current
# working tree; exit 0: it holds, 1: a violation (see the VIOLATION line).
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
bin="$VERIF_DIR/build/gover"
bash "$VERIF_DIR/setup.sh" || exit 2
exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}"
