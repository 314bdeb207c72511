#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
export VFC_BACKENDS_SILENT_LOAD=True VFC_BACKENDS_LOGGER=False

verificarlo-c --ddebug -O0 "$H/p.c" -o p >/dev/null 2>&1 || exit 2
export VFC_BACKENDS="libinterflop_vprec.so --precision-binary64=5"
VFC_DDEBUG_GEN=all ./p >/dev/null || exit 2
[ "$(wc -l < all)" -ge 2 ] || exit 2
head -1 all > inc; : > exc
VFC_DDEBUG_INCLUDE=inc ./p > a && VFC_DDEBUG_INCLUDE=inc VFC_DDEBUG_EXCLUDE=exc ./p > b || exit 2
cmp a b
