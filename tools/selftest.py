#!/usr/bin/env python3
"""selftest.py [N] : is the judge awake?  Records N sessions of every family on the real shell, falsifies each recording
in one place - a byte written, an argument, a result, a callback, an event left out or repeated - and demands that
Trace.tla rejects it at that place or later, while it accepts the recording itself.  Development aid."""
import json, os, random, shutil, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C, gen
sys.modules['check'] = C


def falsify(r, ev):
    """one change that no correct shell could have produced; (index, what) or None"""
    for _ in range(200):
        i = r.randrange(len(ev))
        e = json.loads(ev[i])
        k = e["e"]
        how = r.random()
        if k == "w":
            d = e["d"]
            j = r.randrange(len(d))
            if how < .4:
                d[j] ^= r.choice([1, 32, 128])
            elif how < .6:
                if len(d) < 2 or d.count(d[j]) == len(d):
                    continue
                del d[j]
            elif how < .8:
                d.insert(j, (d[j] + 1) % 256)
            else:
                del ev[i]
                return i, "output lost"
            ev[i] = json.dumps(e)
            return i, "output changed"
        if k in ("hook", "exec"):
            if how < .3:
                del ev[i]
                return i, "call lost"
            if how < .6 and e["a"]:
                a = r.choice(e["a"])
                a.append(33)
            elif how < .8:
                e["a"].append([])
            elif k == "exec":
                e["f"] += 1
            else:
                continue
            ev[i] = json.dumps(e)
            return i, "call changed"
        if k in ("get", "set", "proc"):
            if how < .3:
                del ev[i]
                return i, "call lost"
            if k == "set" and how < .6:
                e["d"].append(0)
            else:
                e["f"] += 1
            ev[i] = json.dumps(e)
            return i, "call changed"
        if k in ("mount", "umount", "cd", "crem", "find", "node", "pnode", "abs"):
            if k == "abs":
                e["r"] = e["r"] + [97]
            else:
                e["r"] += 1
            ev[i] = json.dumps(e)
            return i, "result changed"
        if k == "deinit":
            e["o"] = 0
            ev[i] = json.dumps(e)
            return i, "result changed"
        if k == "wx":
            e["c"] ^= 1
            ev[i] = json.dumps(e)
            return i, "offered byte changed"
        if k in ("ret", "getr"):
            del ev[i]
            return i, "return lost"
        if k in ("printo", "print", "printf") and e["d"] and how < .5 and '"w"' in ev[i + 1][:9]:
            e["d"][0] ^= 1
            ev[i] = json.dumps(e)
            return i, "message changed"
    return None


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 5
    run = C.Run("SC", "quick", 7)
    run.all, run.batch = False, 400
    done, missed, kinds = 0, [], {}
    try:
        run.build()
        jobs = []
        for p in range(1, 23):
            for v, name, text in gen.scripts("P%02d" % p, 77, n):
                if v in run.have:
                    jobs.append((v, name, text))

        def one(job):
            v, name, text = job
            sp, tp = run.execute(v, text, name)
            ev = open(tp).read().splitlines()
            os.remove(sp)
            a, b = C.tlc_trace(tp, tp + ".md")[:2]
            if a != b:
                return name, "rejected as recorded", None, None
            r = random.Random(name)
            f = falsify(r, ev)
            if f is None:
                return name, None, None, None
            with open(tp, "w") as o:
                o.write("\n".join(ev) + "\n")
            a, b = C.tlc_trace(tp, tp + ".md")[:2]
            if a != b:
                os.remove(tp)
            return name, f[1], f[0], a != b and a >= f[0]
        with cf.ThreadPoolExecutor(C.JOBS) as ex:
            for name, what, at, ok in ex.map(one, jobs):
                if what is None:
                    continue
                done += 1
                kinds[what] = kinds.get(what, 0) + 1
                if not ok:
                    missed.append((name, what, at))
    finally:
        shutil.rmtree(run.dir, ignore_errors=True) if not missed else None
    print("%d falsified recordings, %d accepted: %s\n%s" % (done, len(missed), missed[:20], kinds))
    return 1 if missed else 0


sys.exit(main())
