"""Checks over spec/Descriptors.tla: how the types of called services are learnt, and used."""
import json, os, random, re
import vlib

MM = re.compile(r'<<"MISMATCH", (\d+), (\d+), "(\w+)", "(.*)">>')
EDGE = re.compile(r'<<"E", (\d+), "(.*)">>')
NOEV = dict(i=0, fails=[], ft=False, tok=0, how="", ds=[], ctx=0)
RLS, AUTHS = "envoy.service.ratelimit.v3.RateLimitService", "envoy.service.auth.v3.Authorization"
KEYS = dict(k1=("cl-a", "dyn.v1.S1"), k2=("cl-a", "dyn.v1.S2"), k3=("cl-b", "dyn.v1.S1"), k4=("cl-b", "dyn.v1.S3"),
            e1=("cl-a", RLS), e2=("cl-b", AUTHS))
NAME = {v: k for k, v in KEYS.items()}
GATE = "cl-gate"
BADS = ["garbage", "empty", "broken", "other"]


def config(p, c):
    svcs = dict(gate=dict(type="ratelimit", endpoint=GATE, failureMode="deny", timeout="1s"))
    for n in c["svcs"]:
        cl, sv = KEYS[n]
        for d in (True, False):
            s = dict(endpoint=cl, failureMode="deny" if d else "allow", timeout="1s")
            s.update(dict(type="ratelimit") if sv == RLS else dict(type="auth") if sv == AUTHS else
                     dict(type="dynamic", grpcService=sv, grpcMethod="M"))
            svcs["%s-%s" % (n, "deny" if d else "allow")] = s
    acts = []
    if c["gate"]:
        acts.append(dict(type="grpc", predicate="true", terminal=False, isGuard=True, execution="sequential", var="g", service="gate",
                         messageBuilder="envoy.service.ratelimit.v3.RateLimitRequest { domain: 'g' }", onReply=[]))
    for i, a in enumerate(c["acts"], 1):
        if a["key"] == "e1":
            msg, val = "envoy.service.ratelimit.v3.RateLimitRequest { domain: 'd' }", "'ok'"
        elif a["key"] == "e2":
            msg, val = "envoy.service.auth.v3.CheckRequest {}", "'ok'"
        else:
            msg, val = "dyn.v1.Req { id: 'i'%s }" % (", extra: 'e'" if a["ext"] else ""), "d%d.text" % i
        acts.append(dict(type="grpc", predicate="true", terminal=False, isGuard=False, var="d%d" % i,
                         **({} if c["gate"] else {}), service="%s-%s" % (a["key"], "deny" if a["deny"] else "allow"),
                         messageBuilder=msg, onReply=[dict(type="headers", predicate="true", terminal=False, target="request",
                                                           headers="[['x-d%d', %s]]" % (i, val))]))
    cfg = dict(services=svcs, descriptorService=c["ds"],
               actionSets=[dict(name="s", routeRuleConditions=dict(hostnames=["*"]), actions=acts)])
    if c["valid"]:
        return dict(config=cfg)
    if c["svcs"]:  # wrong only after its services have been read
        cfg["actionSets"].append(dict(name="bad", routeRuleConditions=dict(hostnames=["x"], predicates=["1 +"]), actions=acts))
        return dict(config=cfg)
    return dict(raw=json.dumps(cfg)[:-1])


def fds(item):
    cl, sv = KEYS[item["key"]]
    w = item["what"]
    if w in ("garbage", "empty"):
        return w
    short = sv.rsplit(".", 1)[1]
    if w == "fake":
        return dict(fake=sv)
    if w == "other":
        return dict(services=["S4"], ver=1)
    return dict(services=[short] + item.get("more", []), ver=2 if w == "2" else 1, broken=w == "broken")


def step(e, p):
    ev = e["ev"]
    if ev == "conf":
        return dict(ev="configure", fail_dispatch=e["fails"], fail_tick=e["ft"], **config(p, p["cfgs"][e["i"] - 1]))
    if ev == "tick":
        return dict(ev="tick", fail_dispatch=e["fails"])
    if ev == "new":
        return dict(ev="ctx_new", ctx=e["ctx"], fail_dispatch=[], req_chunks=[], resp_chunks=[])
    if ev == "reqh":
        return dict(ev="req_headers", ctx=e["ctx"], eos=True, headers=[[":method", "GET"], [":path", "/"], [":authority", "a.b"]],
                    props=[[["request", "host"], "a.b"]])
    at = dict(tok=e["tok"], force=True) if e["tok"] else dict(nth=e["nth"])
    if ev == "fetched":
        how = e["how"]
        at.update(ev="root_grpc", force=bool(e["tok"]))
        if how == "status":
            return dict(at, status=14)
        if how == "garbage":
            return dict(at, raw="0a05ff")
        if how == "empty":
            return dict(at)
        return dict(at, json=dict(descriptors=[dict(cluster=KEYS[d["key"]][0], service=KEYS[d["key"]][1], fds=fds(d)) for d in e["ds"]]))
    at.update(ev="grpc", ctx=e["ctx"])
    if e["tok"]:
        del at["force"]
    if e["how"] == "status":
        return dict(at, status=13)
    if e["how"] == "garbage":
        return dict(at, raw="0a05ff")
    by = {s: dict(json=dict(text="t$TOK")) for s in ("dyn.v1.S1", "dyn.v1.S2", "dyn.v1.S3")}
    by[RLS] = dict(json=dict(overallCode="OK"))
    by[AUTHS] = dict(json=dict(status=dict(message="m")))
    return dict(at, by=by)


def observe(e, o, p, seen):
    if o.get("panicked"):
        return dict(ret="panic", seq=[], m=[], ticks=[])
    ret = o["ret"]
    ret = {True: "true", False: "false"}.get(ret, ret) if not isinstance(ret, (dict, list)) else ""
    ret = "" if ret is None or e["ev"] == "new" else ret
    m = []
    for x in o["metrics"]:
        n = x[0] if isinstance(x, list) else x
        m += [n.replace("kuadrant.", "")] * (x[1] if isinstance(x, list) else 1)
    calls, reps = list(o["calls"]), list(o["reply"])
    hs = [(n, v) for _, l in o["hdr_sets"] for n, v in l if n.startswith("x-d") and (e["ctx"], n) not in seen]  # a set writes all headers
    seen |= {(e["ctx"], n) for n, _ in hs}
    seq = []
    for x in o["seq"]:
        if x.startswith("call"):
            c = calls.pop(0)
            tok = "" if c["fail"] else str(c["tok"])
            if c["service"] == "kuadrant.v1.DescriptorService":
                known = [NAME.get(tuple(s), "?%s" % s) for s in c["msg"].get("services", [])]
                known.sort(key=lambda n: [k["n"] for k in p["keys"]].index(n) if n in [k["n"] for k in p["keys"]] else 99)
                ok = c["method"] == "GetServiceDescriptors" and c["timeout"] == 1000 and not c["md"]
                seq.append(["F" if c["fail"] else "D"] + ([] if c["fail"] else [tok]) + [c["cluster"] if ok else "?", known])
            elif c["cluster"] == GATE:
                seq.append(["C", tok, "gate", ""])
            else:
                seq.append(["C", tok, NAME.get((c["cluster"], c["service"]), "?"), c["msg"].get("extra", "") + (
                    "" if "undecodable" not in c["msg"] else "?")])
        elif x == "reply":
            seq.append(["R", str(reps.pop(0)["status"])])
        elif x.startswith("hdr:req") and hs:
            for n, v in hs:
                seq.append(["H", n[3:], v])
            hs = []
    return dict(ret=ret, seq=seq, m=[x for x in m if x != "allowed"], ticks=o["ticks"])


class Gen:
    def __init__(self, r):
        self.r = r

    def item(self, keys, reg):
        r = self.r
        n = r.choice(keys)
        if n.startswith("e"):
            return dict(key=n, what=r.choice(["fake", "other"]) if n in reg else "other")
        return dict(key=n, what=r.choices(["1", "2"] + BADS, [5, 4, 1, 0.6, 1, 1])[0])

    def prog(self, small):
        r = self.r
        ks = r.sample(["k1", "k2", "k3", "k4"], r.randint(1, 2 if small else 4)) + r.sample(["e1", "e2"], r.choice([0, 0, 1]) if small else r.randint(0, 2))
        r.shuffle(ks)
        cfgs = []
        for _ in range(2 if small else r.randint(1, 4)):
            valid = r.random() < 0.8
            svcs = [k for k in ks if r.random() < 0.7] or ks[:1]
            acts = [dict(key=r.choice(svcs), ext=r.random() < 0.3, deny=r.random() < 0.4) for _ in range(r.randint(1, 2 if small else 4))]
            for a in acts:
                a["ext"] = a["ext"] and not a["key"].startswith("e")
            if not valid and r.random() < 0.5:
                svcs = []
            cfgs.append(dict(valid=valid, ds=r.choice(["cl-ds", "cl-ds", "cl-ds2"]), svcs=svcs, gate=r.random() < 0.35,
                             acts=acts if svcs else []))
        dyn = [k for k in ks if k[0] == "k"]
        reps = [[dict(key=k, what=r.choice(["1", "2"]), more=[]) for k in dyn]]
        for _ in range(2):
            reps.append([self.item(dyn, []) for _ in range(r.randint(0, 2))])
        return dict(keys=[dict(n=k, emb=k[0] == "e") for k in ks], cfgs=cfgs, tok0=1, reps=reps)

    def events(self, p):
        r = self.r
        ev, ctx, open_, live, reg = [], 2, [], [], set()
        keys = [k["n"] for k in p["keys"]]
        fails = lambda: r.choice([[], [], [], [], ["cl-ds"], ["cl-ds", "cl-ds2"]])
        for _ in range(r.randint(4, 45)):
            z = r.random()
            if z < 0.12 or not ev:
                i = r.randint(1, len(p["cfgs"]))
                reg |= set(p["cfgs"][i - 1]["svcs"])
                ev.append(dict(NOEV, ev="conf", i=i, fails=fails(), ft=r.random() < 0.1))
            elif z < 0.25:
                ev.append(dict(NOEV, ev="tick", fails=fails()))
            elif z < 0.45:
                how = r.choices(["list", "status", "garbage", "empty"], [8, 1, 1, 0.5])[0]
                ds = []
                if how == "list":
                    ds = [dict(self.item(keys, reg), more=r.choice([[], [], ["S3"], ["S4"]])) for _ in range(r.choice([1, 2, 3, 4, 5]))]
                    for d in ds:
                        if KEYS[d["key"]][1].endswith("S3"):
                            d["more"] = []
                ev.append(dict(NOEV, ev="fetched", how=how, ds=ds, nth=r.randint(0, 3), tok=r.randint(1, 9) if r.random() < 0.12 else 0))
            elif z < 0.6 or not (open_ or live):
                ev.append(dict(NOEV, ev="new", ctx=ctx))
                open_.append(ctx)
                ctx += 1
            elif open_ and z < 0.8:
                c = open_.pop(r.randrange(len(open_)))
                live.append(c)
                ev.append(dict(NOEV, ev="reqh", ctx=c))
            elif live:
                ev.append(dict(NOEV, ev="answer", ctx=r.choice(live), nth=r.randint(0, 3), how=r.choices(["ok", "status", "garbage"], [8, 1, 1])[0]))
        return ev


def validate(scs, wd, cov, name):
    conc = [dict(id=str(i), log_level=3, steps=[step(e, p) for e in ev]) for i, (p, ev) in enumerate(scs)]
    res = vlib.run_scenarios(conc, wd, name)
    batch = []
    for (p, ev), o in zip(scs, res):
        t, seen = [], set()
        for k, (e, x) in enumerate(zip(ev, o["obs"]), 1):
            if x.get("skipped"):
                continue
            e = {f: e[f] for f in ("ev",) + tuple(NOEV)}
            if e["ev"] in ("fetched", "answer") and isinstance(x["ret"], dict) and "tok" in x["ret"]:
                e["tok"] = x["ret"]["tok"]
            e["ds"] = [dict(key=d["key"], what=d["what"]) for d in e["ds"]]
            t.append(dict(e, o=observe(e, x, p, seen), k=k))
        if o.get("fatal"):
            t.append(dict(NOEV, ev="tick", k=0, o=dict(ret=o["fatal"], seq=[], m=[], ticks=[])))
        batch.append(dict(p=p, ev=t))
    f = os.path.join(wd, name + ".json")
    json.dump(batch, open(f, "w"))
    rc, out = vlib.tlc("DescriptorsTrace", wd, env=dict(TRACE_FILE=f))
    if rc != 0:
        raise vlib.ToolError("TLC: " + out[-3000:])
    n, _ = vlib.tlc_counts(out)
    cov["states"] += n
    cov["transitions"] += n - len(batch)
    cov["traces_validated_against_impl"] += len(batch)
    if batch and len(cov["samples"]) < 4:
        cov["samples"].append(dict(kind="descriptors-" + name, trace=batch[min(3, len(batch) - 1)]["ev"][:6]))
    bad = []
    for m in MM.finditer(out):
        i, k = int(m.group(1)) - 1, int(m.group(2))
        e = batch[i]["ev"][k - 1]
        bad.append(dict(what="descriptors: " + name, step=e["k"], spec=vlib.unquote(m.group(4)), p=batch[i]["p"],
                        event=e, steps=conc[i]["steps"][:e["k"] or None]))
    bad.sort(key=lambda b: len(json.dumps(b["steps"])))
    return bad


def decode(c, p):
    k, a, sign = c[0], c[1:].rstrip("+-"), c[-1]
    fails = ["cl-ds", "cl-ds2"] if sign == "-" else []
    if k == "c":
        return dict(NOEV, ev="conf", i=int(a), fails=fails)
    if k == "t":
        return dict(NOEV, ev="tick", fails=fails)
    if k == "f":
        tok, r = map(int, a.split("."))
        ds = [dict(d, more=[]) for d in p["reps"][r - 1]] if r else []
        return dict(NOEV, ev="fetched", tok=tok, how="list" if r else "status", ds=ds)
    if k in "nr":
        return dict(NOEV, ev="new" if k == "n" else "reqh", ctx=int(a))
    ctx, tok = map(int, a.split("."))
    return dict(NOEV, ev="answer", ctx=ctx, tok=tok, how="ok" if sign == "+" else "status")


def part(n_mc=(60, 1000), n_beh=(2500, 40000), n_rnd=(2500, 40000)):
    def run(prop, tier, seed, cov):
        i = 0 if tier == "quick" else 1
        wd = vlib.workdir("descriptors-" + prop)
        r = random.Random("descriptors-%s-%d" % (prop, seed))
        progs = [Gen(r).prog(True) for _ in range(n_mc[i])]
        f = os.path.join(wd, "progs.json")
        json.dump(progs, open(f, "w"))
        rc, out = vlib.tlc("DescriptorsMC", wd, env=dict(PROG_FILE=f))
        g, d = vlib.tlc_counts(out)
        cov["states"] += d
        cov["transitions"] += g
        if rc in (12, 13):
            return [dict(what="the property fails in the model of the code", spec=out[-5000:], step=0)], []
        if rc != 0:
            raise vlib.ToolError("TLC: " + out[-3000:])
        paths = {}
        for m in EDGE.finditer(out):
            paths.setdefault(int(m.group(1)) - 1, []).append(json.loads(vlib.unquote(m.group(2))))
        beh = []
        for k, ps in sorted(paths.items()):
            pre = {tuple(q[:-1]) for q in ps}
            for q in sorted({tuple(q) for q in ps} - pre):
                beh.append((progs[k], q))
        cov["model_behaviours"] = cov.get("model_behaviours", 0) + len(beh)
        if len(beh) > n_beh[i]:
            beh = [beh[j] for j in sorted(r.sample(range(len(beh)), n_beh[i]))]
        beh = [(p, [decode(c, p) for c in q]) for p, q in beh]
        bad = validate(beh, wd, cov, "behaviours")
        rnd = []
        for _ in range(n_rnd[i]):
            g = Gen(r)
            p = g.prog(False)
            rnd.append((p, g.events(p)))
        return bad + validate(rnd, wd, cov, "random"), []
    return run
