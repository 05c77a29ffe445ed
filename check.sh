#!/bin/bash
# check.sh PROPERTY [quick|thorough] [--replay FILE] [--secs N]
# Decides one property on the current tree of /repo; see DESIGN.md.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -x /opt/veriftools/go1.26.10/bin/go ] && export PATH=/opt/veriftools/go1.26.10/bin:$PATH
P=$1; shift
TIER=${VERIF_TIER:-quick}
case "$1" in quick|thorough) TIER=$1; shift;; esac
ARGS=()
while [ $# -gt 0 ]; do
  case "$1" in
    --replay) ARGS+=(-replay "$2"); shift 2;;
    --secs) ARGS+=(-secs "$2"); shift 2;;
    --repo) ARGS+=(-repo "$2"); shift 2;;
    *) echo "unknown argument $1"; exit 2;;
  esac
done
BIN=$(mktemp -d /tmp/verifbin.XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
(cd sim && go build -o "$BIN" ./cmd/...) || { echo "ERROR the tools do not build"; exit 2; }
"$BIN/driver" -prop "$P" -tier "$TIER" -verif "$PWD" -bin "$BIN" "${ARGS[@]}"
