"""Model checking of the scenarios and conversion of the behaviours TLC prints
into harness scripts."""
import json, os, re, shutil
import check as C

KIND = {"hook": "hook", "exec": "exec", "get": "get", "set": "set"}


def hx(b):
    return "x" + bytes(b).hex()


def op_lines(o):
    k, d, n, g = o["k"], o["d"], o["n"], o["g"]
    if k == "type":
        return ["i " + hx(d), "g"]
    if k == "raw":
        return ["i " + hx(d)]
    if k == "go":
        return ["g"]
    if k == "acc":
        return ["W %d" % n] if n else []
    if k == "steps":
        return ["s %d" % n]
    if k == "block":
        return ["{ %s %d" % (bytes(d).decode(), n)] + [l for e in o["e"] for l in op_lines(e)] + ["}"]
    if k == "mount":
        return ["M %d %s %d" % (n, hx(d), g)]
    if k == "cadd":
        return ["A %d %d" % (n, g)]
    if k == "crem":
        return ["R %d" % n]
    if k in ("save", "restore"):
        return [dict(save="SV ", restore="RT ")[k] + str(n)]
    if k == "status":
        return ["ST %d" % n]
    if k == "printf":
        return ["F %d %s" % (n, hx(d))]
    if k in ("printfe", "pw"):
        return [dict(printfe="FE ", pw="PW ")[k] + hx(d)]
    if k == "content":
        return ["c %d %s" % (n, hx(d))]
    if k in ("wpat", "rpat"):
        return [{"wpat": "w ", "rpat": "rp "}[k] + bytes(d).decode()]
    if k == "at":
        return ["@ %d %s" % (n, l) for e in o["e"] for l in op_lines(e)]
    if k == "inst":
        return ["S %d" % n]
    one = dict(umount="U", cd="D", find="?", node="n", printo="PO", pnnl="N", pnnlo="NO", flush="FL")
    one["print"] = "P"
    if k in one:
        return [one[k] + " " + hx(d)]
    return [dict(ps="PS", reset="RS", deinit="DI", reinit="RI", flushb="FB")[k]]


def opt(x):
    return hx(x[0]) if x else "-"


def world_lines(w, iid=0):
    out = ["I %d %d %d %d %s %d" % (iid, w["isz"], w["osz"], w["pmax"], hx(w["host"]), w["hook"])]
    for i, f in enumerate(w["fl"]):
        flags = "".join(c for c in "xgs" if f[c]) + ("p" if f["x"] == 2 else "") or "-"
        out.append("fd %d %s %s %s %s %s" % (i + 1, hx(f["n"]), opt(f["d"]), opt(f["h"]), flags, hx(f["c"])))
    for i, g in enumerate(w["gr"]):
        out.append("gl %d %s" % (i + 1, " ".join(map(str, g))))
    for o in w["su"]:
        out += op_lines(o)
    return out


CFG = """SPECIFICATION Spec
CONSTANTS
 Worlds <- sWorlds
 Depth <- sDepth
 Ops <- sOps
 Step <- sStep
 Inv <- sInv
 Abstract <- sAbs
 EmitEdges <- sEdges
 Suffix <- sSuffix
INVARIANTS Universal Scenario
VIEW View
CHECK_DEADLOCK FALSE
"""

SCENARIOS = {}


def explore(r, name, tier=None, timeout=600):
    """model check one scenario; returns its behaviours as scripts"""
    src = open(os.path.join(C.SPEC, name + ".tla")).read()
    cfg = os.path.join(r.dir, name + ".cfg")
    m = re.search(r"^CFG BEGIN$(.*)^CFG END$", src, re.M | re.S)
    with open(cfg, "w") as f:
        f.write(m[1] if m else CFG)
    md = os.path.join(r.dir, name + ".md")
    rc, out = C.java(["-config", cfg, "-metadir", md, name + ".tla"], {"USH_TIER": tier or r.tier}, timeout,
                     heap="8g", workers=C.JOBS, gc="-XX:+UseParallelGC")
    shutil.rmtree(md, ignore_errors=True)
    if "Model checking completed. No error has been found." not in out:
        keep = [l for l in out.splitlines() if not re.match(r'"@|Parsing file|Semantic processing|Linting of', l)]
        raise C.ModelFailure("scenario %s: %s" % (name, "\n".join(l for l in keep if not re.match(r"\s*[\d<>, ]+$", l))[:4000]))
    st = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    r.cnt["mc_transitions"] += int(st[1])
    r.cnt["mc_states"] += int(st[2])
    worlds, tests = {}, []
    for l in out.splitlines():
        if not l.startswith('"@'):
            continue
        s = json.loads(l)
        if s.startswith("@W"):
            _, i, j = s.split(" ", 2)
            worlds[int(i)] = json.loads(j)
        else:
            tests.append(json.loads(s[3:]))
    scripts = []
    for k, t in enumerate(tests):
        nm = "%s.%d" % (name, k)
        if "iw" in t:                       # several instances
            ws = [worlds[i] for i in t["iw"]]
            lines = [l for i, w in enumerate(ws) for l in world_lines(w, i)]
            v = ws[0]["v"]
        else:
            w = worlds[t["w"]]
            lines, v = world_lines(w), w["v"]
        for o in t["h"]:
            lines += op_lines(o)
        scripts.append((v, nm, "T %s\n%s\n" % (nm, "\n".join(lines))))
    r.notes["model:" + name] = dict(states=int(st[2]), transitions=int(st[1]), behaviours=len(scripts))
    return scripts


def run(r):
    ok = True
    for name in scenarios(r.pid):
        ok = r.validate(explore(r, name), "scenario " + name) and ok
        if not ok and not r.all:
            break
    return ok


def scenarios(pid):
    return sorted(f[:-4] for f in os.listdir(C.SPEC) if re.fullmatch(r"S%s[a-z]?\.tla" % pid[1:], f))
