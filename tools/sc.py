#!/usr/bin/env python3
"""sc.py SCENARIO.. : model check scenarios and replay their behaviours (development aid)"""
import sys, os, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C, mc
C.Run.all, C.Run.batch = False, 400
sys.modules['check'] = C
tier = os.environ.get("VERIF_TIER", "quick")
for name in sys.argv[1:]:
    r = C.Run("SC", tier, 1)
    r.all, r.batch = False, 400
    try:
        t0 = time.time()
        r.build()
        s = mc.explore(r, name, timeout=3000)
        t1 = time.time()
        ok = r.validate(s, name)
        print(name, "mc %.1fs" % (t1 - t0), r.notes["model:" + name], "replay %.1fs" % (time.time() - t1), r.cnt["events"], "ok" if ok else "REJECTED", r.rejects[:3])
        print(s[len(s)//2][2] if s else "no behaviours")
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)
