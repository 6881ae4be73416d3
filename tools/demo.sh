#!/bin/bash
# Builds demo.cpp against the repository's libraries and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/plydemo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
WS=/repo/_build/ws
B=$WS/data/build/all/build/Debug
S=$WS/repos/plywood/src
/usr/bin/clang++ -include utility -g -w -std=c++14 -pthread -DPLY_WITH_ASSERTS=1 -fno-exceptions \
    -I$WS/data/build/all/codegen/ply-platform -I$S/platform -I$S/runtime -I$S/reflect -I$S/pylon/pylon -I$S/web/common \
    "$D/demo.cpp" -o "$T/demo" $B/libweb-common.a $B/libpylon.a $B/libreflect.a $B/libruntime.a $B/libreflect.a $B/libruntime.a -ldl || exit 2
cd "$T" && timeout 120 ./demo
