#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
export VFC_BACKENDS_SILENT_LOAD=True VFC_BACKENDS_LOGGER=False

verificarlo-c "$H/p.c" -o p >/dev/null 2>&1 || exit 2
VFC_BACKENDS="libinterflop_vprec.so" ./p > a || exit 2
VFC_BACKENDS="libinterflop_vprec.so;libinterflop_vprec.so" ./p > b || exit 1
cmp a b
