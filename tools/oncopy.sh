#!/bin/bash
# development aid: run checks against a copy of the repository (default /tmp/wc)
# usage: [WC=/tmp/wc] tools/oncopy.sh [--patch FILE] C01 [args...]
WC=${WC:-/tmp/wc}
if [ "$1" = --patch ]; then git -C $WC checkout -q -- . && git -C $WC apply "$2" || exit 3; shift 2; fi
mkdir -p /tmp/vo
VERIF_REPO=$WC VERIF_OUT=/tmp/vo exec /verif/run_check.py "$@"
