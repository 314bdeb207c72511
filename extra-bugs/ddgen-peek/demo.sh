#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
export VFC_BACKENDS_SILENT_LOAD=True VFC_BACKENDS_LOGGER=False

verificarlo-c --ddebug -O0 "$H/p.c" -o p -lpthread >/dev/null 2>&1 || exit 2
ok=0
for i in 1 2 3; do
VFC_BACKENDS=libinterflop_ieee.so VFC_DDEBUG_GEN=all ./p || exit 1
[ -s all ] || exit 1
done
