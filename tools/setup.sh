#!/bin/bash
# nothing is installed: check that the tools are there and that the harness and the specification load
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
command -v gcc java python3 >/dev/null
B="$V/build/setup-$$"
"$V/tools/build.sh" "$B"
printf 'T setup\nI 0 32 64 32 x68 1\nM 1 x2f 0\ng\n' > "$B/s"
"$B/h0" "$B/s" "$B/t"
cd "$V/spec"
USH_TRACE="$B/t" java -XX:+UseSerialGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC \
  -noGenerateSpecTE -config Trace.cfg -metadir "$B/md" Trace.tla | grep REACHED
rm -rf "$B"
