"""Checks over spec/Routing.tla: which action set of which configuration governs a request."""
import json, os, random, re, sys
import vlib

MM = re.compile(r'<<"MISMATCH", (\d+), (\d+), "(\w+)", "(.*)">>')
EDGE = re.compile(r'<<"E", (\d+), "(.*)">>')
LABELS = ["a", "b", "ab", "aq", "c", "a$b", "$b", "b$"]
NOREQ = dict(host=[], nohost=False, method="", path="", hdr="")
PRED = dict(T="true", F="false", ERR="1 / 0 == 1", BAD="'str'")


def pred(p):
    if p["k"] in PRED:
        return PRED[p["k"]]
    if p["k"] == "M":
        return "request.method == '%s'" % p["a"]
    if p["k"] == "P":
        return "request.url_path == '/%s'" % p["a"]
    if p["k"] == "HE":
        return "request.headers['x-k'] == '%s'" % p["a"]
    return "'x-k' in request.headers"


def case(s, r):
    return "".join(c.upper() if r.random() < 0.3 else c for c in s)


def name_of(h, r):
    s = ".".join((["*"] if h["wild"] else []) + h["labels"])
    return case(s, r)


SVC = dict(rl=dict(type="ratelimit", endpoint="cl-rl", failureMode="deny", timeout="1s"))
BAD = ["json", "none", "missing", "service", "predicate", "route", "seqreply", "dynamic", "value", "timeout", "nested"]


def config(cfg, r):
    """A configuration in which each set announces itself with a request header; invalid ones in several ways."""
    sets = []
    for s in cfg["sets"]:
        sets.append(dict(name=s["name"], routeRuleConditions=dict(
            hostnames=[name_of(h, r) for h in s["hosts"]], predicates=[pred(p) for p in s["preds"]]),
            actions=[] if s["empty"] else [dict(type="headers", predicate="true", terminal=False, target="request",
                                                headers="[['x-set', '%s']]" % s["name"])]))
    c = dict(services=dict(SVC), actionSets=sets)
    if cfg["fallback"]:
        c["observability"] = dict(httpHeaderIdentifier="x-track")
    if cfg["valid"]:
        return dict(config=c)
    how = cfg["how"]
    if how == "none":
        return dict(raw=None)
    if how == "json":
        return dict(raw=json.dumps(c)[:-2])
    act = dict(type="headers", predicate="true", terminal=False, target="request", headers="[['x-set', 'broken']]")
    extra = dict(name="broken", routeRuleConditions=dict(hostnames=["*"], predicates=[]), actions=[act])
    if how == "missing":
        del act["headers"]
    elif how == "service":
        extra["actions"] = [dict(type="grpc", predicate="true", terminal=False, var="v", service="nowhere", isGuard=True,
                                 messageBuilder="1", onReply=[])]
    elif how == "predicate":
        act["predicate"] = "true &&"
    elif how == "value":
        act["headers"] = "[['x-set'"
    elif how == "route":
        extra["routeRuleConditions"]["predicates"] = ["request.method = 'a'"]
    elif how in ("seqreply", "nested"):
        kid = dict(act, execution="sequential") if how == "seqreply" else dict(act, predicate=")")
        extra["actions"] = [dict(type="grpc", predicate="true", terminal=False, var="v", service="rl", isGuard=True,
                                 messageBuilder="envoy.service.ratelimit.v3.RateLimitRequest { domain: 'd' }", onReply=[kid])]
    elif how == "dynamic":
        c["services"]["dyn"] = dict(type="dynamic", endpoint="cl-d", failureMode="deny", timeout="1s")
    elif how == "timeout":
        c["services"]["rl"] = dict(SVC["rl"], timeout="soon")
    c["actionSets"] = sets + [extra]
    return dict(config=c)


class Gen:
    def __init__(self, r):
        self.r = r
        self.labels = r.sample(LABELS, r.randint(2, 4))
        if r.random() < 0.6:
            self.labels = [l for l in self.labels if "$" not in l] or ["a"]

    def host(self, deep=3):
        return [self.r.choice(self.labels) for _ in range(self.r.randint(1, deep))]

    def name(self):
        r = self.r
        wild = r.random() < 0.5
        ls = [l.replace("$", "") or "a" for l in self.host()]
        if wild and r.random() < 0.3:
            ls = []
        return dict(wild=wild, labels=ls)

    def pred(self):
        r = self.r
        k = r.choices(["T", "F", "M", "P", "HE", "HI", "ERR", "BAD"], [2, 1, 5, 5, 3, 3, 0.7, 0.5])[0]
        return dict(k=k, a=r.choice(["u", "v"]) if k in "M P HE".split() else "")

    def cfg(self, n, small):
        r = self.r
        valid = r.random() < (0.75 if small else 0.8)
        sets = []
        for i in range(r.randint(0 if r.random() < 0.1 else 1, 3 if small else 6)):
            sets.append(dict(name="c%ds%d" % (n, i), hosts=[self.name() for _ in range(r.choices([0, 1, 2, 3], [0.3, 6, 3, 1])[0])],
                             preds=[self.pred() for _ in range(r.choices([0, 1, 2, 3], [5, 4, 2, 1])[0])], empty=r.random() < 0.08))
        return dict(valid=valid, fallback=r.random() < 0.2, sets=sets, how="" if valid else r.choice(BAD))

    def req(self, cfgs):
        r = self.r
        names = [h for c in cfgs for s in c["sets"] for h in s["hosts"]]
        if names and r.random() < 0.75:
            h = r.choice(names)
            host = ([r.choice(self.labels) for _ in range(r.randint(0 if r.random() < 0.3 else 1, 2))] if h["wild"] else
                    [r.choice(self.labels)] if r.random() < 0.15 else []) + h["labels"]
            if r.random() < 0.1:
                host = host[1:]
        else:
            host = self.host(4)
        host = host or ["a"]
        return dict(host=host, nohost=r.random() < 0.04, method=r.choice(["u", "v"]), path=r.choice(["u", "v"]),
                    hdr=r.choice(["", "u", "v"]))

    def prog(self, small):
        r = self.r
        cfgs = [self.cfg(i, small) for i in range(2 if small else r.randint(1, 4))]
        return dict(cfgs=cfgs, reqs=[self.req(cfgs) for _ in range(3)])

    def events(self, p):
        r = self.r
        ev, fresh, open_ = [], 2, []
        for _ in range(r.randint(4, 40)):
            z = r.random()
            if z < 0.15 or not ev:
                ev.append(dict(ev="conf", i=r.randint(1, len(p["cfgs"])), ctx=0, req=NOREQ))
            elif z < 0.55 or not open_:
                ev.append(dict(ev="new", i=0, ctx=fresh, req=NOREQ))
                open_.append(fresh)
                fresh += 1
            else:
                c = open_.pop(r.randrange(len(open_)))
                ev.append(dict(ev="reqh", i=0, ctx=c, req=self.req(p["cfgs"])))
        return ev


def step(e, p, r):
    if e["ev"] == "conf":
        return dict(ev="configure", **config(p["cfgs"][e["i"] - 1], r))
    if e["ev"] == "new":
        return dict(ev="ctx_new", ctx=e["ctx"], next_token=1, fail_dispatch=[], req_chunks=[], resp_chunks=[])
    q = e["req"]
    host = case(".".join(q["host"]), r) + r.choice(["", "", ":80", ":8443"])
    hd = [[":method", q["method"]], [":path", "/" + q["path"]], [":authority", host]] + ([["x-k", q["hdr"]]] if q["hdr"] else [])
    props = [[["request", "method"], q["method"]], [["request", "url_path"], "/" + q["path"]], [["request", "path"], "/" + q["path"]]]
    if not q["nohost"]:
        props.append([["request", "host"], host])
    return dict(ev="req_headers", ctx=e["ctx"], eos=True, headers=hd, props=props)


def observe(e, o):
    ret = o["ret"]
    ret = {True: "true", False: "false", None: ""}.get(ret, ret) if not isinstance(ret, (dict, list)) else ""
    if o.get("panicked"):
        ret = "panic"
    m = []
    for x in o["metrics"]:
        m += [x[0].replace("kuadrant.", "")] * x[1] if isinstance(x, list) else [x.replace("kuadrant.", "")]
    m = [x for x in m if x not in ("allowed", "denied")]
    who = [v for _, l in o["hdr_sets"] for n, v in l if n == "x-set"]
    rp = o["reply"]
    rp = rp if isinstance(rp, list) else [rp] if rp else []
    if e["ev"] == "new":
        ret = ""
    return dict(ret=ret, who=",".join(who), m=m, reply=",".join(str(x["status"]) for x in rp))


def validate(scs, wd, cov, name, r):
    conc = [dict(id=str(i), log_level=3, steps=[step(e, p, r) for e in ev]) for i, (p, ev) in enumerate(scs)]
    res = vlib.run_scenarios(conc, wd, name)
    batch = []
    for (p, ev), o in zip(scs, res):
        t = [dict(e, o=observe(e, x)) for e, x in zip(ev, o["obs"])]
        if o.get("fatal"):
            t.append(dict(ev="conf", i=1, ctx=0, req=NOREQ, o=dict(ret=o["fatal"], who="", m=[], reply="")))
        batch.append(dict(p=p, ev=t))
    f = os.path.join(wd, name + ".json")
    json.dump(batch, open(f, "w"))
    rc, out = vlib.tlc("RoutingTrace", wd, env=dict(TRACE_FILE=f))
    if rc != 0:
        raise vlib.ToolError("TLC: " + out[-3000:])
    n, _ = vlib.tlc_counts(out)
    cov["states"] += n
    cov["transitions"] += n - len(batch)
    cov["traces_validated_against_impl"] += len(batch)
    if batch and len(cov["samples"]) < 4:
        cov["samples"].append(dict(kind="routing-" + name, trace=batch[min(3, len(batch) - 1)]["ev"][:6]))
    bad = []
    for m in MM.finditer(out):
        i, k = int(m.group(1)) - 1, int(m.group(2))
        bad.append(dict(what="routing: " + name, step=k, spec=vlib.unquote(m.group(4)), p=batch[i]["p"],
                        event=batch[i]["ev"][k - 1], steps=conc[i]["steps"][:k]))
    bad.sort(key=lambda b: len(json.dumps(b["steps"])))
    return bad


def part(n_mc=(160, 2500), n_beh=(2500, 40000), n_rnd=(1500, 25000)):
    def run(prop, tier, seed, cov):
        i = 0 if tier == "quick" else 1
        wd = vlib.workdir("routing-" + prop)
        r = random.Random("routing-%s-%d" % (prop, seed))
        progs = [Gen(r).prog(True) for _ in range(n_mc[i])]
        f = os.path.join(wd, "progs.json")
        json.dump(progs, open(f, "w"))
        rc, out = vlib.tlc("RoutingMC", wd, env=dict(PROG_FILE=f))
        g, d = vlib.tlc_counts(out)
        cov["states"] += d
        cov["transitions"] += g
        if rc in (12, 13):
            return [dict(what="the property fails in the model of the code", spec=out[-5000:], step=0)], []
        if rc != 0:
            raise vlib.ToolError("TLC: " + out[-3000:])
        paths = {}
        for m in EDGE.finditer(out):
            paths.setdefault(int(m.group(1)) - 1, []).append(tuple(json.loads(vlib.unquote(m.group(2)))))
        beh = []
        for k, ps in sorted(paths.items()):
            ps = sorted(set(ps))
            for a, q in enumerate(ps):
                if a + 1 < len(ps) and ps[a + 1][:len(q)] == q:
                    continue
                ev = []
                for c in q:
                    x = c[1:].split(".")
                    ev.append(dict(ev=dict(c="conf", n="new", r="reqh")[c[0]], i=int(x[0]) if c[0] == "c" else 0,
                                   ctx=int(x[0]) if c[0] != "c" else 0, req=progs[k]["reqs"][int(x[1]) - 1] if c[0] == "r" else NOREQ))
                beh.append((progs[k], ev))
        cov["model_behaviours"] = cov.get("model_behaviours", 0) + len(beh)
        if len(beh) > n_beh[i]:
            beh = [beh[j] for j in sorted(r.sample(range(len(beh)), n_beh[i]))]
        bad = validate(beh, wd, cov, "behaviours", r)
        rnd = []
        for _ in range(n_rnd[i]):
            g = Gen(r)
            p = g.prog(False)
            rnd.append((p, g.events(p)))
        return bad + validate(rnd, wd, cov, "random", r), []
    return run
