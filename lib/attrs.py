"""Checks over spec/Attrs.tla: what actions read from the host and the headers they set."""
import json, os, random, re
import vlib

MM = re.compile(r'<<"MISMATCH", (\d+), (\d+), "(\w+)", "(.*)">>')
EDGE = re.compile(r'<<"E", (\d+), "(.*)">>')
RL = "envoy.service.ratelimit.v3.RateLimitRequest"
STR = ["request.path", "request.method", "request.scheme", "request.protocol", "request.query", "request.referer", "request.useragent",
       "source.service", "source.principal", "destination.address", "destination.service"]
INT = ["request.size", "source.port", "destination.port"]
JSN = ["metadata.filter_metadata.m", "request.own.x", "metadata.v", "destination.tag.a.b", "source.tag"]
TEXTS = ["", "a", "/p?q=1", "v 1", "é日😀", "x,y", "7", "true", "null", "A-b", "{}x", "/toys/1"]


FORMS = ["", "", "", "map", "list", "cond", "macro"]


def fetched(n):
    """The property the filter asks the host for."""
    return ("source.address" if n in ("addr", "raddr") else n).split(".")


def cel_name(n):
    return dict(addr="source.address", raddr="source.remote_address").get(n, n)


def quote(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def ref(n, form):
    c = cel_name(n)
    return {"": c, "map": "{'k': %s}.k" % c, "list": "[%s][0]" % c, "cond": "(true ? %s : 'x')" % c,
            "macro": "[1].map(i, %s)[0]" % c}[form]


def pair(p):
    v = quote(p["v"]) if p["a"] == "" else ref(p["a"], p["form"])
    n = quote(p["name"])
    return "[%s, %s]" % (n, v)


def config(p):
    acts = []
    for i, a in enumerate(p["acts"], 1):
        c = dict(predicate="true", terminal=False, isGuard=False, execution="sequential")
        if a["k"] == "read":
            c.update(type="store", path="st%d" % i, exportToHost=True, value="[%s]" % ", ".join(ref(n, f) for n, f in zip(a["as"], a["forms"])))
        elif a["k"] == "look":
            c.update(type="store", path="st%d" % i, exportToHost=True, value="[request.headers[%s]]" % quote(a["h"]))
        elif a["k"] == "set":
            c.update(type="headers", target="request" if a["tgt"] == "req" else "response", headers="[%s]" % ", ".join(map(pair, a["pairs"])))
        else:
            c.update(type="grpc", isGuard=a["guard"], var="g%d" % i, service="rl", messageBuilder=RL + " { domain: 'd%d' }" % i, onReply=[])
        acts.append(c)
    return dict(services=dict(rl=dict(type="ratelimit", endpoint="rl", failureMode="allow", timeout="1s")),
                actionSets=[dict(name="s", routeRuleConditions=dict(hostnames=["*"]), actions=acts)])


def addr_text(x):
    b = x["form"] in ("v6b", "v6bp")
    return ("[" if b else "") + x["ip"] + ("]" if b else "") + (":" + x["port"] if x["form"] in ("v4p", "v6bp") else "")


def prop(c):
    """A change at the host as the harness takes it."""
    k, n, x = c["k"], c["n"], c["x"]
    if k == "none":
        v = None
    elif k == "notyet":
        v = dict(bad=True)
    elif k == "err":
        v = dict(err=1)
    elif k == "bad":
        v = dict(hex="fffe")
    elif n == "addr":
        v = addr_text(x)
    elif n in INT:
        v = int(x[1])
    elif n in JSN:
        v = c["text"]
    else:
        v = x[1]
    return [fetched(n), v]


def spec_prog(p):
    return dict(attrs=p["attrs"], fails=p["fails"], acts=[
        dict(k=a["k"], **{"as": a.get("as", [])}, h=a.get("h", ""), tgt=a.get("tgt", ""), guard=a.get("guard", False),
             pairs=[dict(n=q["n"], v=q["v"], a=q["a"]) for q in a.get("pairs", [])]) for a in p["acts"]])


def steps(p, evs):
    out = [dict(ev="configure", config=config(p)),
           dict(ev="ctx_new", ctx=2, fail_dispatch=[], fail_set_req="setreq" in p["fails"], fail_set_resp="setresp" in p["fails"],
                fail_set_prop="setprop" in p["fails"], req_chunks=[], resp_chunks=[])]
    at = []
    for e in evs:
        ch = [prop(c) for c in e["chg"]]
        if e["ev"] == "reqh":
            ch.append([["request", "host"], "a.b"])
        out.append(dict(ev="set_props", ctx=2, props=ch))
        if e["ev"] == "reqh":
            out.append(dict(ev="req_headers", ctx=2, eos=e["eos"], headers=[[n, v] for n, v in e["hs"]]))
        elif e["ev"] == "resph":
            out.append(dict(ev="resp_headers", ctx=2, eos=e["eos"], headers=[[n, v] for n, v in e["hs"]]))
        elif e["ev"] == "answer":
            out.append(dict(ev="grpc", ctx=2, nth=0, json=dict(overall_code=e["code"])))
        else:
            out.append(dict(ev="%s_body" % e["side"], ctx=2, data=e["data"], eos=e["eos"]))
        at.append(len(out) - 1)
    return out, at


def observe(o):
    calls, props, hdrs = list(o["calls"]), list(o["props"]), list(o["hdr_sets"])
    seq = []
    for x in o["seq"]:
        if x == "prop":
            q = props.pop(0)
            ok = len(q[0]) == 1 and q[0][0].startswith("kuadrant.st") and q[2] and q[2][0] == "list"
            seq.append(["P", q[0][0][11:], [[v[0], v[1] if len(v) > 1 else ""] for v in q[2][1]]] if ok else ["P", json.dumps(q), []])
        elif x.startswith("hdr:"):
            h = hdrs.pop(0)
            seq.append(["H", h[0], [[n.lower(), v] for n, v in h[1]]])
        elif x.startswith("call"):
            calls.pop(0)
            seq.append(["C"])
        elif not x.startswith("resume"):
            seq.append(["?", x])
    return seq


def validate(scs, wd, cov, name):
    conc = []
    for i, (p, evs) in enumerate(scs):
        st, at = steps(p, evs)
        conc.append((dict(id=str(i), log_level=3, steps=st), at))
    res = vlib.run_scenarios([c for c, _ in conc], wd, name)
    batch = []
    for (p, evs), (c, at), o in zip(scs, conc, res):
        t, late = [], []
        if o.get("fatal") or any(x.get("panicked") for x in o["obs"]):
            t = [dict(ev="reqh", hs=[], chg=[], k=0, o=[["dead", str(o.get("fatal"))]])]
        else:
            for e, k in zip(evs, at):
                x = o["obs"][k]
                late += [dict(n=y["n"], k=y["k"], x=y["x"]) for y in e["chg"]]
                if x.get("skipped"):
                    continue
                t.append(dict(ev=e["ev"] if e["ev"] != "body" else "other", chg=late, hs=[[n.lower(), v] for n, v in e.get("hs", [])], k=k, o=observe(x)))
                late = []
        batch.append(dict(p=spec_prog(p), ev=t))
    f = os.path.join(wd, name + ".json")
    json.dump(batch, open(f, "w"))
    rc, out = vlib.tlc("AttrsTrace", wd, env=dict(TRACE_FILE=f))
    if rc != 0:
        raise vlib.ToolError("TLC: " + out[-3000:])
    n, _ = vlib.tlc_counts(out)
    cov["states"] += n
    cov["transitions"] += n - len(batch)
    cov["traces_validated_against_impl"] += len(batch)
    if batch and len(cov["samples"]) < 4:
        cov["samples"].append(dict(kind="attributes-" + name, trace=batch[min(3, len(batch) - 1)]))
    bad = []
    for m in MM.finditer(out):
        i, k = int(m.group(1)) - 1, int(m.group(2))
        e = batch[i]["ev"][k - 1]
        bad.append(dict(what="attributes and headers: " + name, step=e["k"], spec=vlib.unquote(m.group(4)), p=batch[i]["p"], event=e, steps=conc[i][0]["steps"]))
    bad.sort(key=lambda b: len(json.dumps(b["steps"])))
    return bad


# ---- generation -----------------------------------------------------------------------------------------------------
class Gen:
    NAMES = ["x-a", "x-b", "x-a-b", "accept", "cookie", "x-client", "user-agent", "content-type"]

    def __init__(self, r, sets=0.4, small=False):
        self.r, self.sets, self.small = r, sets, small

    def case(self, n):
        return self.r.choice([n, n, n.title(), n.upper()])

    def val(self, n):
        r = self.r
        if n == "addr":
            form = r.choice(["v4", "v4p", "v4p", "v6", "v6b", "v6bp", "v6bp"])
            ip = r.choice(["10.0.0.1", "192.168.1.20", "1.2.3.4"]) if form[1] == "4" else r.choice(["2001:db8::1", "::1", "fe80::a:b", "::ffff:1.2.3.4"])
            return dict(k="val", n=n, x=dict(ip=ip, form=form, port=r.choice(["1", "443", "65535"])))
        if n in INT:
            return dict(k="val", n=n, x=["num", str(r.choice([0, 1, 7, 80, 65536, -1, 2 ** 40]))])
        if n in JSN:
            z = r.random()
            if z < 0.35:
                s = r.choice([t for t in TEXTS if t not in ("7", "true", "null")])
                return dict(k="val", n=n, x=["str", s], text=s)
            if z < 0.65:
                s = r.choice(TEXTS)
                return dict(k="val", n=n, x=["str", s], text=json.dumps(s, ensure_ascii=r.random() < 0.5))
            if z < 0.8:
                s = r.choice(["0", "7", "-3", "1.5"])
                return dict(k="val", n=n, x=["num", s], text=s)
            if z < 0.9:
                return dict(k="val", n=n, x=["null", ""], text="null")
            b = r.random() < 0.5
            return dict(k="val", n=n, x=["bool", b], text="true" if b else "false")
        return dict(k="val", n=n, x=["str", r.choice(TEXTS)])

    def prog(self):
        r = self.r
        ns = r.sample(STR, 2) + r.sample(INT, 1) + r.sample(JSN, r.choice([1, 2])) + ["addr", "raddr"]
        if self.small:
            ns = r.sample(ns[:-2], 2) + ["addr", "raddr"] if r.random() < 0.5 else r.sample(ns[:-2], 3)
        weird = r.choice(ns) if r.random() < 0.6 else ""
        w2 = {"addr": "raddr", "raddr": "addr"}.get(weird, weird)
        sound = [n for n in ns if n not in (weird, w2)]
        acts = []
        form = lambda: r.choice(FORMS)
        for _ in range(r.randint(2, 4 if self.small else 8)):
            z = r.random()
            if z < self.sets:
                wa = weird if weird and r.random() < 0.3 else ""
                ps = []
                for _ in range(1 if wa else r.choice([1, 1, 2, 3])):
                    n = r.choice(self.NAMES[:3] if self.small else self.NAMES)
                    a = wa or (r.choice(sound) if sound and r.random() < 0.35 else "")
                    ps.append(dict(n=n, name=self.case(n), v=r.choice(TEXTS) if not a else "", a=a, form=form()))
                if r.random() < 0.04:
                    ps = []
                acts.append(dict(k="set", tgt=r.choice(["req", "resp"]), pairs=ps))
            elif z < self.sets + 0.12:
                acts.append(dict(k="look", h=r.choice(self.NAMES[:3] if self.small else self.NAMES)))
            elif z < self.sets + 0.24:
                acts.append(dict(k="call", guard=r.random() < 0.6))
            elif weird and r.random() < 0.45:
                acts.append(dict(k="read", forms=[form()], **{"as": [r.choice([weird, w2])]}))
            elif sound:
                qs = [r.choice(sound) for _ in range(r.choice([1, 1, 2, 3]))]
                acts.append(dict(k="read", forms=[form() for _ in qs], **{"as": qs}))
        if not acts:
            return self.prog()
        fails = [f for f in ("setreq", "setresp", "setprop") if r.random() < 0.05]
        return dict(attrs=ns, weird=weird, acts=acts, fails=fails)

    def change(self, p, n, first=False):
        r = self.r
        base = "addr" if n == "raddr" else n
        if p["weird"] and base == ("addr" if p["weird"] == "raddr" else p["weird"]):
            z = r.random()
            if z < 0.45:
                return dict(k=r.choice(["notyet", "notyet", "err", "bad"]), n=base, x=["null", ""])
        elif not first and r.random() < 0.1:
            return dict(k="none", n=base, x=["null", ""])
        elif first and r.random() < 0.15:
            return None
        return self.val(base)

    def changes(self, p, first=False):
        r = self.r
        ns = sorted({"addr" if n == "raddr" else n for n in p["attrs"]})
        out = [self.change(p, n, first) for n in ns if first or r.random() < 0.5]
        return [c for c in out if c]

    def headers(self, first):
        r = self.r
        hs = [[n, r.choice(TEXTS)] for n in (r.choice(self.NAMES) for _ in range(r.choice([0, 1, 2, 3, 5])))]
        return first + hs

    def events(self, p):
        r = self.r
        out = [dict(ev="reqh", eos=r.random() < 0.4, hs=self.headers([[":method", "GET"], [":path", "/"], [":authority", "a.b"]]), chg=self.changes(p, True))]
        code = lambda: r.choice(["OK", "OVER_LIMIT"])

        def answers():
            while r.random() < 0.4:
                out.append(dict(ev="answer", code=code(), chg=self.changes(p)))
        answers()
        if not out[0]["eos"]:
            for i in range(r.choice([1, 1, 2])):
                out.append(dict(ev="body", side="req", data="x", eos=False, chg=self.changes(p)))
                answers()
            out.append(dict(ev="body", side="req", data="", eos=True, chg=self.changes(p)))
            answers()
        n = sum(a["k"] == "call" for a in p["acts"])
        for _ in range(n if r.random() < 0.6 else 0):
            out.append(dict(ev="answer", code=code(), chg=self.changes(p)))
        if r.random() < 0.9:
            eos = r.random() < 0.4
            out.append(dict(ev="resph", eos=eos, hs=self.headers([[":status", "200"]]), chg=self.changes(p)))
            answers()
            if not eos:
                for i in range(r.choice([1, 2])):
                    out.append(dict(ev="body", side="resp", data="y", eos=False, chg=self.changes(p)))
                    answers()
                out.append(dict(ev="body", side="resp", data="", eos=True, chg=self.changes(p)))
            for _ in range(n + 1):
                out.append(dict(ev="answer", code=code(), chg=self.changes(p)))
        return out


# ---- behaviours of the model ------------------------------------------------------------------------------------------
def small(r, sets):
    g = Gen(r, sets, small=True)
    p = g.prog()
    p["first"] = g.changes(p, True)
    p["vals"] = [g.change(p, r.choice([n for n in p["attrs"]])) for _ in range(2)]
    p["reqhs"] = [[":method", "GET"], [":path", "/"], [":authority", "a.b"]] + [[r.choice(g.NAMES[:3]), r.choice(TEXTS)] for _ in range(r.choice([0, 1, 2]))]
    p["resphs"] = [[":status", "200"]] + [[r.choice(g.NAMES[:3]), r.choice(TEXTS)] for _ in range(r.choice([0, 1, 2]))]
    return p


def concrete(p, path):
    evs, nb = [], 0
    for code, c in path:
        chg = [p["vals"][c - 1]] if c else []
        if code == "h":
            evs.append(dict(ev="reqh", eos=False, hs=p["reqhs"], chg=p["first"] + chg))
        elif code == "H":
            evs.append(dict(ev="resph", eos=False, hs=p["resphs"], chg=chg))
        elif code == "a":
            evs.append(dict(ev="answer", code="OK", chg=chg))
        else:
            evs.append(dict(ev="body", side="resp" if any(x[0] == "H" for x in path[:len(evs)]) else "req", data="x", eos=False, chg=chg))
    return p, evs


def clean(c):
    return dict(n=c["n"], k=c["k"], x=c["x"])


def part(sets, n_mc=(60, 400), n_beh=(3000, 40000), n_rnd=(4000, 60000)):
    def run(prop, tier, seed, cov):
        i = 0 if tier == "quick" else 1
        wd = vlib.workdir("attrs-" + prop)
        r = random.Random("attrs-%s-%d" % (prop, seed))
        progs = [small(r, sets) for _ in range(n_mc[i])]
        f = os.path.join(wd, "progs.json")
        json.dump([dict(spec_prog(p), first=[clean(c) for c in p["first"]], vals=[clean(c) for c in p["vals"]], reqhs=p["reqhs"],
                        resphs=p["resphs"]) for p in progs], open(f, "w"))
        rc, out = vlib.tlc("AttrsMC", wd, env=dict(PROG_FILE=f))
        g, d = vlib.tlc_counts(out)
        cov["states"] += d
        cov["transitions"] += g
        if rc in (12, 13):
            return [dict(what="the property fails in the model of the code", spec=out[-5000:], step=0)], []
        if rc != 0:
            raise vlib.ToolError("TLC: " + out[-3000:])
        paths = {}
        for m in EDGE.finditer(out):
            paths.setdefault(int(m.group(1)) - 1, set()).add(tuple(map(tuple, json.loads(vlib.unquote(m.group(2))))))
        beh = []
        for k, ps in sorted(paths.items()):
            pre = {q[:-1] for q in ps}
            beh += [(k, q) for q in sorted(ps - pre)]
        cov["model_behaviours"] = cov.get("model_behaviours", 0) + len(beh)
        if len(beh) > n_beh[i]:
            beh = [beh[j] for j in sorted(r.sample(range(len(beh)), n_beh[i]))]
        bad = validate([concrete(progs[k], q) for k, q in beh], wd, cov, "behaviours")
        rnd = []
        for _ in range(n_rnd[i]):
            g = Gen(r, sets)
            p = g.prog()
            rnd.append((p, g.events(p)))
        return bad + validate(rnd, wd, cov, "random"), []
    return run
