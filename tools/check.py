#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--n SCRIPTS] [--keep]

Decides one property: model checks the specification (spec/MC*.tla), replays
the behaviours generated from it and the scripts of tools/gen.py on the real
shell, and validates every recorded trace against spec/Trace.tla with TLC.
exit 0: held on everything explored; 1: VIOLATION; other: the check failed.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
sys.modules.setdefault('check', sys.modules['__main__'])

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8


class ModelFailure(Exception):
    pass


def java(args, env, timeout, heap="1500m", workers=1, gc="-XX:+UseSerialGC", props=()):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env)
    tmp = os.path.dirname(args[args.index("-metadir") + 1])
    cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-Xmx" + heap, "-Xss64m", gc, *props, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE"] + args
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ModelFailure("TLC ran out of time")
    return p.returncode, p.stdout.decode("latin-1")


def tlc_trace(trace, md, timeout=700):
    """(reached, total, states, transitions, stuck state, output)"""
    rc, out = java(["-config", "Trace.cfg", "-metadir", md, "Trace.tla"], {"USH_TRACE": trace}, timeout)
    shutil.rmtree(md, ignore_errors=True)
    m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
    if not m:
        return None, None, 0, 0, None, out
    st = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    stuck = re.search(r'<<\s*"STUCK",\s*"(.*)"\s*>>', out, re.S)
    return int(m[1]), int(m[2]), int(st[2]) if st else 0, int(st[1]) if st else 0, stuck and stuck[1], out


def traces(events):
    """the framed traces of a recording, by name and instance"""
    out, cur = {}, []
    for e in events:
        cur.append(e)
        if e == '{"e":"end"}':
            out[cur[0]] = cur
            cur = []
    return out


def different(one, two):
    a, b = traces(one), traces(two)
    return [e for k, t in b.items() if a.get(k) != t for e in t]


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = os.path.join(V, "build", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.have = set()
        self.cnt = dict(states=0, transitions=0, traces=0, events=0, mc_states=0, mc_transitions=0)
        self.kinds = {}
        self.samples = []
        self.rejects = []
        self.notes = {}
        self.seq = 0

    def build(self):
        """the harness in every configuration needed; False if a supported one does not build"""
        want = range(15 if self.pid in ("P19", "SC") else 5)
        subprocess.run([os.path.join(V, "tools", "build.sh"), self.dir, " ".join(map(str, want))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, USH_MSAN="1" if self.pid in ("P16", "P17", "P18") else ""))
        self.have = {v for v in want if os.path.exists(os.path.join(self.dir, "h%d" % v))}
        if 0 not in self.have:
            raise ModelFailure("the harness does not build\n" + open(os.path.join(self.dir, "build0.log")).read()[-4000:])
        bad = sorted(set(want) - self.have)
        self.notes["configurations not building"] = len(bad)
        if bad and self.pid == "P19":       # a supported configuration is gone
            rp = os.path.join(V, "replays", self.pid, "build")
            os.makedirs(rp, exist_ok=True)
            for v in bad:
                shutil.copy(os.path.join(self.dir, "build%d.log" % v), rp)
            open(os.path.join(rp, "README"), "w").write("property P19: configurations %s do not build (harness/ush_config.h); replay: tools/build.sh DIR \"%s\"\n"
                                                        % (bad, " ".join(map(str, bad))))
            self.rejects.append(("build", rp, "configurations %s do not build" % bad))
        return not self.rejects

    def execute(self, v, text, tag, exe="h"):
        sp, tp = os.path.join(self.dir, tag + ".scr"), os.path.join(self.dir, tag + ".ndjson")
        with open(sp, "w") as f:
            f.write(text)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:log_path=/dev/null", UBSAN_OPTIONS="log_path=/dev/null", MSAN_OPTIONS="log_path=/dev/null")
        p = subprocess.run([os.path.join(self.dir, "%s%d" % (exe, v)), sp, tp], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode:
            raise ModelFailure("harness failed (%d): %s" % (p.returncode, p.stderr.decode("latin-1")[-500:]))
        return sp, tp

    def chunk(self, job):
        """execute and validate one batch; returns the rejected script names"""
        tag, v, scr = job
        sp, tp = self.execute(v, "".join(t for _, t in scr), tag)
        rejected, todo = [], dict(scr)
        events = open(tp).read().splitlines()
        if os.path.exists(os.path.join(self.dir, "m%d" % v)):
            for f in self.execute(v, "".join(t for _, t in scr), tag + "m", "m"):
                if f.endswith(".ndjson"):
                    second = open(f).read().splitlines()
                os.remove(f)
            if second != events:            # let the specification judge the traces that differ, too
                events += different(events, second)
        res = dict(states=0, transitions=0, traces=0, events=len(events), kinds={}, sample=None)
        for e in events:
            k = e[6:e.index('"', 6)]
            res["kinds"][k] = res["kinds"].get(k, 0) + 1
        res["sample"] = (scr[0][1], events[:60])
        while events:
            with open(tp, "w") as f:
                f.write("\n".join(events) + "\n")
            a, b, ds, ts, stuck, out = tlc_trace(tp, os.path.join(self.dir, tag + ".md"))
            if a is None:
                raise ModelFailure("TLC: " + out[-3000:])
            res["states"] += ds
            res["transitions"] += ts
            if a == b:
                res["traces"] += sum('"e":"begin"' in e[:14] for e in events)
                break
            i = a - 1
            while '"e":"begin"' not in events[i][:14]:
                i -= 1
            name = json.loads(events[i])["t"]
            rejected.append((v, name, dict(scr)[name]))
            j = a - 1
            while events[j] != '{"e":"end"}':
                j += 1
            res["traces"] += sum('"e":"begin"' in e[:14] for e in events[:i])
            if not self.all:
                break
            events = events[j + 1:]
        for f in (sp, tp):
            os.remove(f)
        return rejected, res

    def validate(self, scripts, label):
        """scripts: [(v, name, text)]"""
        by = {}
        for v, name, text in scripts:
            if v in self.have:
                by.setdefault(v, []).append((name, text))
        jobs = []
        for v, l in sorted(by.items()):
            size = max(10, min(self.batch, len(scripts) // (JOBS * 3)))
            for i in range(0, len(l), size):
                self.seq += 1
                jobs.append(("c%d" % self.seq, v, l[i:i + size]))
        jobs.sort(key=lambda j: -sum(len(t) for _, t in j[2]))
        rejected = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.chunk, j) for j in jobs]
            for f in cf.as_completed(futs):
                if f.cancelled():
                    continue
                rej, res = f.result()
                for k in ("states", "transitions", "traces", "events"):
                    self.cnt[k] += res[k]
                for k, n in res["kinds"].items():
                    self.kinds[k] = self.kinds.get(k, 0) + n
                if len(self.samples) < 3:
                    self.samples.append(dict(source=label, script=res["sample"][0][:1500], trace_head=res["sample"][1][:25]))
                rejected += rej
                if rej and not self.all:
                    for g in futs:
                        g.cancel()
        self.notes[label] = self.notes.get(label, 0) + len(scripts)
        for v, name, text in sorted(rejected, key=lambda x: len(x[2])):
            if len(self.rejects) >= 8 and not self.all:
                break
            self.confirm(v, name, text)
        return not self.rejects

    def confirm(self, v, name, text):
        for exe in "hmhhhh":                # a fault that depends on memory contents may take several runs
            if not os.path.exists(os.path.join(self.dir, "%s%d" % (exe, v))):
                continue
            tag = exe + "re-" + re.sub(r"[^A-Za-z0-9.]", "_", name)
            sp, tp = self.execute(v, text, tag, exe)
            a, b, _, _, stuck, out = tlc_trace(tp, os.path.join(self.dir, tag + ".md"))
            if a is None:
                raise ModelFailure("TLC: " + out[-3000:])
            if a != b:
                break
        else:
            raise ModelFailure("rejection of %s did not repeat" % name)
        events = open(tp).read().splitlines()
        rp = os.path.join(V, "replays", self.pid, re.sub(r"[^A-Za-z0-9.]", "_", name))
        os.makedirs(rp, exist_ok=True)
        shutil.copy(sp, os.path.join(rp, "script"))
        shutil.copy(tp, os.path.join(rp, "trace.ndjson"))
        with open(os.path.join(rp, "README"), "w") as f:
            f.write("property %s, configuration %d\nreplay: tools/replay.sh %s\n\nrejected event (line %d of trace.ndjson):\n%s\n\nbefore it:\n%s\n\n"
                    "state of the specification before the event:\n%s\n"
                    % (self.pid, v, rp, a, events[a - 1], "\n".join(events[max(0, a - 8):a - 1]), (stuck or "").replace('\\"', '"')))
        open(os.path.join(rp, "vcfg"), "w").write("%d\n" % v)
        self.rejects.append((name, rp, events[a - 1][:200]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--n", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--all", action="store_true", help="keep going after a rejection")
    ap.add_argument("--no-mc", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    r = Run(a.pid, a.tier, seed)
    r.all = a.all
    r.batch = 400
    n = a.n or (3000 if a.tier == "quick" else 60000)
    try:
        ok = r.build()
        if ok and not a.no_mc:
            import mc
            ok = mc.run(r)
        if ok:
            ok = r.validate(gen.scripts(a.pid, seed, n, a.start), "generated")
    except ModelFailure as e:
        print("ERROR property=%s %s" % (a.pid, e))
        return 2
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)
    wall = time.time() - t0
    cov = dict(states=r.cnt["states"] + r.cnt["mc_states"], transitions=r.cnt["transitions"] + r.cnt["mc_transitions"],
               traces_validated_against_impl=r.cnt["traces"],
               model_states=r.cnt["mc_states"], model_transitions=r.cnt["mc_transitions"],
               trace_states=r.cnt["states"], events_validated=r.cnt["events"], events_by_kind=r.kinds, scripts_by_source=r.notes, samples=r.samples)
    ev = dict(property=a.pid, tier=a.tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=["TLC and the CommunityModules evaluate the specification correctly",
                           "harness/harness.c records every interaction at the public interface in order",
                           "the shell is single threaded; the harness plays the integrator within the documented API contract (DESIGN.md)"],
              wall_s=round(wall, 1), violations=len(r.rejects))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for name, rp, e in r.rejects:
        print("rejected %s at %s" % (name, e))
        print("VIOLATION property=%s replay=%s" % (a.pid, rp))
    print("%s %s: %d scripts, %d traces, %d events, %d states, %.1f s" %
          (a.pid, a.tier, sum(n if isinstance(n, int) else 0 for n in r.notes.values()), r.cnt["traces"], r.cnt["events"], cov["states"], wall))
    return 1 if r.rejects else 0


if __name__ == "__main__":
    sys.exit(main())
