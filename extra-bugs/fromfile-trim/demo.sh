#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
export VFC_BACKENDS_SILENT_LOAD=True VFC_BACKENDS_LOGGER=False

verificarlo-c "$H/p.c" -o p >/dev/null 2>&1 || exit 2
O="libinterflop_vprec.so --precision-binary64=23"
printf '%s' "$O" > conf
VFC_BACKENDS="$O" ./p > a || exit 2
VFC_BACKENDS_FROM_FILE=conf ./p > b || exit 1
cmp a b
