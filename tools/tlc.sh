#!/bin/bash
# tlc.sh MODULE [CFG] [extra args]: run TLC on a module of /verif/spec by hand
cd "$(dirname "$0")/../spec" || exit 2
M=$1; C=${2:-$1.cfg}; shift 2
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
exec java -XX:+UseParallelGC -Xmx4g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir "$W" -config "$C" "$@" "$M.tla"
