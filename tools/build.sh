#!/bin/bash
# build the harness around /repo's current sources: build.sh OUTDIR [CONFIGURATIONS]
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${USH_REPO:-/repo}
OUT=$1
mkdir -p "$OUT"
SRCS=$(find "$R/src/src" -name '*.c' | sort)
pids=()
# the fields of the shell object documented as shared with process callbacks, as long as they are called that
X="-I $V/harness -I $R/src -DVCFG=0"
if echo '#include "inc/ush.h"
void f(struct ush_object *o, uint8_t *d);
void f(struct ush_object *o, uint8_t *d) { o->process_index = o->process_index_item = o->process_data_size = 1; o->process_stage = 1; o->process_data = d; }' |
    gcc -w -fsyntax-only -Werror=int-conversion -x c $X - 2> /dev/null; then X=-DSHARED_FIELDS; else X=; fi
for v in ${2:-0 1 2 3 4}; do
  case $v in                    # 13 and 14: the configurations shipped with the library
    13) def="-DVCFG=13 -DUSH_CONFIG_PLATFORM_POSIX" ;;
    14) def="-DVCFG=14 -DARDUINO" ;;
    *) def=-DVCFG=$v ;;
  esac
  gcc -O1 -g -w $def $X -I "$V/harness" -I "$R/src" \
      -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer \
      -o "$OUT/h$v" "$V/harness/harness.c" $SRCS > "$OUT/build$v.log" 2>&1 &
  pids+=($!)
  if [ -n "$USH_MSAN" ]; then   # a second opinion: another compiler, uninitialised memory watched, char as on ARM
    clang -O2 -g -w -funsigned-char $def $X -I "$V/harness" -I "$R/src" -fsanitize=memory -fno-omit-frame-pointer \
        -o "$OUT/m$v" "$V/harness/harness.c" $SRCS > "$OUT/buildm$v.log" 2>&1 &
    pids+=($!)
  fi
done
rc=0
for p in "${pids[@]}"; do wait $p || rc=1; done
exit $rc
