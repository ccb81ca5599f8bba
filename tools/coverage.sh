#!/bin/bash
# coverage.sh [N] : lines and branches of the library reached by N scripts of each family, and by each scenario's
# behaviours if SC=1.  Development aid: shows what the checks never exercise.
V=$(cd "$(dirname "$0")/.." && pwd)
R=${USH_REPO:-/repo}
N=${1:-300}
B=$(mktemp -d)
trap 'find "$B" -delete' EXIT
python3 - "$N" "$B" "$V" <<'P'
import sys
n, b, v = int(sys.argv[1]), sys.argv[2], sys.argv[3]
sys.path.insert(0, v + "/tools")
import gen
by = {}
for i in range(1, 21):
    for c, name, text in gen.scripts("P%02d" % i, 1, n):
        by.setdefault(c, []).append(text)
for c, l in by.items():
    open("%s/s%d" % (b, c), "w").write("".join(l))
P
for v in 0 1 2 3 4; do
  mkdir "$B/c$v"
  ( cd "$B/c$v" && gcc -std=gnu99 -O0 -g -w -DVCFG=$v -DH_COVERAGE --coverage -fprofile-update=atomic -I "$V/harness" -I "$R/src" -o h "$V/harness/harness.c" $(find "$R/src/src" -name '*.c') \
    && ./h ../s$v /dev/null; gcov -b -t -o . *.gcda > all.gcov 2>/dev/null ) &
done
wait
python3 - "$B" <<'P'
import sys, re, collections
b = sys.argv[1]
hit, br, src = collections.Counter(), collections.Counter(), {}
for v in range(5):
    f, n = None, 0
    for l in open("%s/c%d/all.gcov" % (b, v), errors="replace"):
        m = re.match(r"\s*([-#=\d]+)\*?:\s*(\d+):(.*)", l)
        if m:
            n = int(m[2])
            if n == 0:
                if m[3].startswith("Source:"):
                    f = m[3][7:]
                continue
            if "/src/src/" not in f or m[1] == "-":
                continue
            k = (f.split("/src/src/")[1], n)
            src[k] = m[3]
            hit[k] += 0 if m[1][0] in "#=" else int(m[1])
            i = 0
        elif f and "/src/src/" in f and l.startswith("branch"):
            m = re.match(r"branch\s+(\d+) (taken (\d+)|never)", l)
            k = (f.split("/src/src/")[1], n, int(m[1]))
            br[k] += int(m[3] or 0)
lines, ok = len(hit), sum(v > 0 for v in hit.values())
print("lines %d of %d, branch directions %d of %d" % (ok, lines, sum(v > 0 for v in br.values()), len(br)))
for k in sorted(hit):
    dead = [i for (f, n, i), c in br.items() if (f, n) == k and not c]
    if not hit[k]:
        print("LINE   %s:%d %s" % (k[0], k[1], src[k].strip()))
    elif dead:
        print("branch %s:%d %s never %s" % (k[0], k[1], src[k].strip(), dead))
P
