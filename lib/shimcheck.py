"""Checks over spec/Shim.tla: exhaustive histories of small programs, replayed into the code, and
random programs and histories whose recorded runs are checked against the specification."""
import json, os, random, re, sys, time
import gen, legacy, shim, vlib

MM = re.compile(r'<<"MISMATCH", (\d+), (\d+), "(\w+)", "(.*)">>')
EDGE = re.compile(r'<<"E", (\d+), "(.*)">>')


def abstract_body(b):
    return [{k: c[k] for k in shim.NOCHUNK} for c in b]


def decode(code, st):
    """A history code of ShimMC as an event."""
    if code == "h":
        return dict(ev="reqh", eos=st["reqeos"])
    if code == "b":
        return dict(ev="reqb")
    if code == "H":
        return dict(ev="resph", eos=st["respeos"])
    if code == "B":
        return dict(ev="respb")
    m = re.match(r"(\d+)([\w-]+)", code)
    return dict(ev="grpc", tok=int(m.group(1)), res=m.group(2))


def maximal(paths):
    """Drop the histories that are prefixes of another."""
    ps = sorted(set(paths))
    return [p for i, p in enumerate(ps) if i + 1 == len(ps) or ps[i + 1][:len(p)] != p]


def model_check(scs, wd, cov):
    """All histories of the programs of scs in the model. Returns behaviours as scenarios, and the
    invariant violation, if any."""
    progs = []
    for s in scs:
        p = dict(s["prog"])
        p["req"], p["resp"] = abstract_body(s["req"]), abstract_body(s["resp"])
        p["res"] = ["ok", "over", "status", "garbage"]
        progs.append(p)
    f = os.path.join(wd, "progs.json")
    json.dump(progs, open(f, "w"))
    rc, out = vlib.tlc("ShimMC", wd, env=dict(PROG_FILE=f))
    gen_, dist = vlib.tlc_counts(out)
    cov["states"] += dist
    cov["transitions"] += gen_ - len(progs)
    if rc == 12 or rc == 13:
        return None, out[-6000:]
    if rc != 0:
        raise vlib.ToolError("TLC: " + out[-3000:])
    paths = {}
    for m in EDGE.finditer(out):
        paths.setdefault(int(m.group(1)) - 1, []).append(tuple(json.loads(vlib.unquote(m.group(2)))))
    res = []
    for i, ps in sorted(paths.items()):
        st = dict(reqeos=not scs[i]["req"], respeos=not scs[i]["resp"])
        for p in maximal(ps):
            res.append(dict(prog=scs[i]["prog"], req=scs[i]["req"], resp=scs[i]["resp"],
                            events=[decode(c, st) for c in p]))
    return res, None


def validate(scs, wd, cov, name, runner=shim.run):
    """Run scenarios in the code and check the recorded runs against the specification."""
    bad = []
    for a in range(0, len(scs), 12000):
        part = scs[a:a + 12000]
        trs = runner(part, wd)
        bad += check(part, trs, wd, cov, name)
    bad.sort(key=lambda b: (len(json.dumps(b["sc"]["prog"])), b["step"]))
    return bad


def check(part, trs, wd, cov, name):
    bad = []
    f = os.path.join(wd, "batch-%s.json" % name)
    json.dump([dict(p=s["prog"], ev=t) for s, t in zip(part, trs)], open(f, "w"))
    rc, out = vlib.tlc("ShimTrace", wd, env=dict(TRACE_FILE=f))
    if rc != 0:
        # an observation outside the vocabulary of the model can stop TLC: narrow it down
        if len(part) == 1:
            return [dict(sc=part[0], trace=trs[0], step=0, what="not a behaviour of the model", spec=out[-1500:])]
        h = len(part) // 2
        bad = check(part[:h], trs[:h], wd, cov, name) or check(part[h:], trs[h:], wd, cov, name)
        if not bad:
            raise vlib.ToolError("TLC: " + out[-3000:])
        return bad
    n, _ = vlib.tlc_counts(out)
    cov["transitions"] += n - len(part)
    cov["states"] += n
    cov["traces_validated_against_impl"] += len(part)
    if len(cov["samples"]) < 3 and part:
        j = min(len(part) - 1, 7)
        cov["samples"].append(dict(kind=name, program=part[j]["prog"]["acts"], trace=[
            [t["ev"], t["tok"], t["res"], t["ret"], t["seq"]] for t in trs[j]]))
    for m in MM.finditer(out):
        i = int(m.group(1)) - 1
        bad.append(dict(sc=part[i], trace=trs[i], step=int(m.group(2)), what=m.group(3),
                        spec=vlib.unquote(m.group(4))))
    bad.sort(key=lambda b: (len(json.dumps(b["sc"]["prog"])), b["step"]))
    return bad


def interleaved(prop, profiles, n, seed, cov, reconf):
    """Requests handled at once by one filter: each must behave as the specification says it does alone."""
    wd = vlib.workdir("many-" + prop)
    r = random.Random("many-%s-%d" % (prop, seed))
    tot = sum(w for w, _ in profiles)
    scs = [gen.Gen(r, **dict(o, trace=0)).scenario() for w, o in profiles for _ in range(int(n * w / tot))]
    r.shuffle(scs)
    bad = []
    for a in range(0, len(scs), 10000):
        part = scs[a:a + 10000]
        trs, conc, wrong = shim.run_interleaved(part, wd, r, reconf)
        for w in wrong[:1]:
            bad.append(dict(what="a configuration that should be %s was not" % ("accepted" if w[0] else "rejected"), step=0))
        bad += check(part, trs, wd, cov, "interleaved-requests")
    return bad


def run(prop, profiles, n_mc, n_rand, n_beh, seed, cov):
    """profiles: list of (weight, overrides). Returns the list of divergences."""
    wd = vlib.workdir("shim-" + prop)
    r = random.Random("%s-%d" % (prop, seed))
    tot = sum(w for w, _ in profiles)
    small, rnd = [], []
    for w, o in profiles:
        for _ in range(int(n_mc * w / tot) if o.get("ntop", (0, 0))[1] < 9 else 0):
            so = dict(o)
            so.setdefault("ntop", (1, 3))
            so.setdefault("depth", 1)
            s = gen.Gen(r, **so).scenario()
            s["req"], s["resp"] = s["req"][:3], s["resp"][:3]
            small.append(s)
        for _ in range(int(n_rand * w / tot)):
            rnd.append(gen.Gen(r, **o).scenario())
    t0 = time.time()
    beh, viol = model_check(small, wd, cov)
    t1 = time.time()
    if viol:
        return [dict(what="the property fails in the model of the code", spec=viol, step=0, sc=None, trace=None)]
    cov["model_behaviours"] = len(beh)
    if len(beh) > n_beh:
        beh = [beh[i] for i in sorted(r.sample(range(len(beh)), n_beh))]
    bad = validate(beh, wd, cov, "model-behaviours")
    t2 = time.time()
    bad += validate(rnd, wd, cov, "random-histories")
    sys.stderr.write("mc %.1f replay %d %.1f random %d %.1f\n" % (t1 - t0, len(beh), t2 - t1, len(rnd), time.time() - t2))
    return bad


def run_legacy(prop, profiles, n_mc, n_rand, n_beh, seed, cov):
    """The same for configurations of the legacy format."""
    wd = vlib.workdir("legacy-" + prop)
    r = random.Random("legacy-%s-%d" % (prop, seed))
    tot = sum(w for w, _ in profiles)
    small, rnd = [], []
    for w, o in profiles:
        so = dict(o)
        so["n"] = so.get("nmc", (1, 2))
        for s in legacy.scenarios(r, int(n_mc * w / tot), **so):
            s["req"], s["resp"] = s["req"][:2], s["resp"][:2]
            small.append(s)
        rnd += legacy.scenarios(r, int(n_rand * w / tot), **o)
    t0 = time.time()
    beh, viol = model_check(small, wd, cov)
    t1 = time.time()
    if viol:
        return [dict(what="the property fails in the model of the code", spec=viol, step=0, sc=None, trace=None)]
    cov["model_behaviours"] = cov.get("model_behaviours", 0) + len(beh)
    if len(beh) > n_beh:
        beh = [beh[i] for i in sorted(r.sample(range(len(beh)), n_beh))]
    bad = validate(beh, wd, cov, "model-behaviours", legacy.run)
    t2 = time.time()
    bad += validate(rnd, wd, cov, "random-histories", legacy.run)
    sys.stderr.write("legacy: mc %.1f replay %d %.1f random %d %.1f\n" % (t1 - t0, len(beh), t2 - t1, len(rnd), time.time() - t2))
    return bad
