#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
export VFC_BACKENDS_SILENT_LOAD=True VFC_BACKENDS_LOGGER=False

verificarlo-c --inst-fcmp -O0 "$H/p.c" -o p >/dev/null 2>&1 || exit 2
VFC_BACKENDS="libinterflop_ieee.so --debug;libinterflop_ieee.so --debug" VFC_BACKENDS_LOGGER=True ./p 2> o || exit 2
[ "$(grep -c 'FCMP_O' o)" = 2 ]
