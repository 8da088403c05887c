#!/bin/bash
# build.sh OUTDIR [free] : compiles the library sources of /repo's working tree and the
# recording harness into OUTDIR/runner.  Nothing is written outside OUTDIR.
# free: threads really run together, and the library is instrumented by the thread sanitizer.
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${CRG_REPO:-/repo}
[ "$2" = free ] && TS=-fsanitize=thread DEF=-DCRG_FREE_THREADS
mkdir -p "$OUT/obj"
FLAGS="-std=c++17 -O1 -w $DEF -DCRG_BUILD_STATIC -DCRG_VERSION_MAJOR=1 -DCRG_VERSION_MINOR=1 -DCRG_VERSION_BUILD=0 -I$REPO/include -I$REPO/source -I$HERE $CRG_EXTRA_FLAGS"
( find "$REPO/source" -name '*.cpp' | sort | sed "s/$/\t$TS/"; echo "$HERE/mock.cpp"; echo "$HERE/runner.cpp" ) \
 | awk -F'\t' -v o="$OUT/obj" '{n=$1; gsub("[^A-Za-z0-9]","_",n); print $1 "\t" o "/" n ".o\t" $2}' > "$OUT/files"
tac "$OUT/files" | xargs -P "$(nproc)" -d '\n' -I{} bash -c 'IFS=$'"'"'\t'"'"' read -r s o x <<< "$1"; g++ '"$FLAGS"' $x -c "$s" -o "$o"' _ {}
# (the library first, so that inline functions it shares with the harness are its own)
g++ $(cut -f2 "$OUT/files") -o "$OUT/runner" $TS $CRG_EXTRA_FLAGS -lpthread -ldl
