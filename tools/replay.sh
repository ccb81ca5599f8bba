#!/bin/bash
# run a saved script on the current tree and validate its trace: replay.sh DIR
V=$(cd "$(dirname "$0")/.." && pwd)
D=$(cd "$1" && pwd)
B=$(mktemp -d)
"$V/tools/build.sh" "$B" "$(cat "$D/vcfg")" || exit 2
ASAN_OPTIONS=detect_leaks=0 UBSAN_OPTIONS=print_stacktrace=1 "$B/h$(cat "$D/vcfg")" "$D/script" "$B/trace.ndjson" || exit 2
cd "$V/spec" && USH_TRACE=$B/trace.ndjson tlc -noGenerateSpecTE -workers 1 -config Trace.cfg -metadir "$B/md" Trace.tla | grep -E 'REACHED|STUCK|rror'
rm -rf "$B"
