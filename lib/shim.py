"""Concretisation and abstraction between the programs of spec/Shim.tla and the code.

Nothing here knows the expected behaviour: it writes configurations, bodies, events and messages for
an abstract scenario, and reads what the host observed back into the vocabulary of the specification.
"""
import json

RL = "envoy.service.ratelimit.v3.RateLimitRequest"


def cel_str(e):
    """CEL text of a string-valued abstract expression."""
    k = e["k"]
    if k == "C":
        return "'%s'" % e["f"]
    if k == "RQB":
        return "requestBodyJSON('/%s')" % e["f"]
    if k == "RSB":
        return "responseBodyJSON('/%s')" % e["f"]
    if k == "ST":
        return e["f"]
    if k == "VAR":
        return "(%s.overall_code == 2 ? 'over' : 'ok')" % var_name(e["f"])
    if k == "ERR":
        return "string(1 / 0)"
    if k == "BAD":  # evaluates, but is not a string
        return "1"
    raise ValueError(k)


def cel_pred(e):
    k = e["k"]
    if k == "T":
        return "true"
    if k == "F":
        return "false"
    if k == "ERR":
        return "1 / 0 == 1"
    if k == "BAD":
        return "'notabool'"
    return "%s == '%s'" % (cel_str(e), e["w"])


def var_name(aid):
    return "v" + aid.replace(".", "_")


SERVICES = {
    "deny-none": dict(type="ratelimit", endpoint="cl-deny", failureMode="deny", timeout="101ms"),
    "allow-none": dict(type="ratelimit", endpoint="cl-allow", failureMode="allow", timeout="102ms"),
    "deny-dispatch": dict(type="ratelimit", endpoint="cl-broken-deny", failureMode="deny", timeout="103ms"),
    "allow-dispatch": dict(type="ratelimit", endpoint="cl-broken-allow", failureMode="allow", timeout="104ms"),
    "deny-nodesc": dict(type="dynamic", endpoint="cl-dyn", failureMode="deny", timeout="105ms",
                        grpcService="dyn.v1.S1", grpcMethod="M"),
    "allow-nodesc": dict(type="dynamic", endpoint="cl-dyn", failureMode="allow", timeout="106ms",
                         grpcService="dyn.v1.S1", grpcMethod="M"),
    "tracing": dict(type="tracing", endpoint="cl-trace", failureMode="allow", timeout="107ms"),
}
BROKEN = ["cl-broken-deny", "cl-broken-allow"]
TRACK = "x-track"


def status_of(aid):
    return 401 + sum(7 ** i * (int(x) + 1) for i, x in enumerate(aid.split("."))) % 60


def action_cfg(prog, aid):
    a = prog["acts"][aid]
    c = dict(type=a["kind"], predicate=cel_pred(a["pred"]), terminal=a["term"], isGuard=a["guard"])
    if not a["par"]:
        c["execution"] = "sequential"
    k = a["kind"]
    if k == "grpc":
        c["var"] = var_name(aid)
        c["service"] = "%s-%s" % (a["mode"], a["fault"])
        if a["fault"] == "nodesc":
            c["messageBuilder"] = "dyn.v1.Req { id: 'a%s:' + %s }" % (aid, cel_str(a["val"]))
        else:
            c["messageBuilder"] = RL + " { domain: 'a%s:' + %s }" % (aid, cel_str(a["val"]))
        c["onReply"] = [action_cfg(prog, x) for x in a["reply"]]
    elif k == "deny":
        if a["val"]["k"] == "BAD":
            c["denyWith"] = "'not a reply'"
        else:
            c["denyWith"] = "DenyResponse { status: %du, headers: [['x-by', 'a%s']], body: 'b:' + %s }" % (
                status_of(aid), aid, cel_str(a["val"]))
    elif k == "headers":
        c["target"] = "request" if a["tgt"] == "req" else "response"
        c["headers"] = "[['x-a%s', 'h:' + %s]]" % (aid.replace(".", "-"), cel_str(a["val"]))
    elif k == "store":
        c["path"] = a["path"]
        c["value"] = cel_str(a["val"])
        c["exportToHost"] = a["export"]
    elif k == "fail":
        c["logMessage"] = "fail a%s" % aid
    return c


def config(*progs):
    """One configuration with an action set per program, selected by host name."""
    prog = progs[0]
    c = dict(services=SERVICES, actionSets=[dict(
        name="set%d" % n, routeRuleConditions=dict(hostnames=["p%d.shim.test" % n]),
        actions=[action_cfg(p, a) for a in p["top"]]) for n, p in enumerate(progs)])
    obs = {}
    if prog.get("track"):
        obs["httpHeaderIdentifier"] = TRACK
    if prog.get("trace"):
        obs["defaultLevel"] = "DEBUG"
        obs["tracing"] = dict(service="tracing")
    if obs:
        c["observability"] = obs
    return c


REQ_HDRS = [[":method", "POST"], [":path", "/p"], [":authority", "x.shim.test"], ["x-request-id", "rid-%d"], ["x-client", "c"]]
RESP_HDRS = [[":status", "200"], ["content-type", "application/json"], ["x-up", "u"]]


def steps(sc, ctx=2, host=0):
    """Concrete steps of an abstract scenario: create the context, the events."""
    prog = sc["prog"]
    f = prog["fail"]
    out = [dict(ev="ctx_new", ctx=ctx, next_token=prog["tok0"], fail_dispatch=BROKEN, fail_set_req="setreq" in f,
                fail_set_resp="setresp" in f, fail_set_prop="setprop" in f,
                req_chunks=[dict(data=x["data"], eos=x["eos"]) for x in sc["req"]],
                resp_chunks=[dict(data=x["data"], eos=x["eos"]) for x in sc["resp"]])]
    return out + [event(e, ctx, host) for e in sc["events"]]


def event(e, ctx=2, host=0):
    k = e["ev"]
    if k == "reqh":
        hd = [[n, v.replace("%d", str(ctx)).replace("x.shim", "p%d.shim" % host)] for n, v in REQ_HDRS]
        return dict(ev="req_headers", ctx=ctx, eos=e["eos"], headers=hd,
                    props=[[["request", "host"], "p%d.shim.test" % host], [["request", "path"], "/p"],
                           [["request", "method"], "POST"]])
    if k == "reqb":
        return dict(ev="req_body", ctx=ctx, next=True)
    if k == "resph":
        return dict(ev="resp_headers", ctx=ctx, eos=e["eos"], headers=RESP_HDRS)
    if k == "respb":
        return dict(ev="resp_body", ctx=ctx, next=True)
    if k == "grpc":
        s = dict(ev="grpc", ctx=ctx, status=0)
        if "tok" in e:
            s["tok"] = e["tok"]
        else:
            s["nth"] = e["nth"]
        if e.get("force"):
            s["force"] = True
        r = e["res"]
        if r == "ok":
            s["json"] = dict(overall_code="OK")
        elif r == "over":
            s["json"] = dict(overall_code="OVER_LIMIT")
        elif r == "status":
            s["status"] = 14
        elif r == "garbage":
            s["raw"] = "ffffffff"
        elif r == "empty":
            pass
        return s
    raise ValueError(k)


def pack(scs, size=12):
    """Scenarios with the same observability settings share a root: indices per group."""
    groups = {}
    for i, s in enumerate(scs):
        key = (s["prog"]["track"], s["prog"]["trace"])
        groups.setdefault(key, []).append(i)
    out = []
    for key, ix in groups.items():
        n = 1 if key[1] else size
        out += [ix[j:j + n] for j in range(0, len(ix), n)]
    return out


def run(scs, wd, size=12):
    """Run abstract scenarios in the code; the abstract trace of each."""
    import vlib
    groups = pack(scs, size)
    conc = []
    for g, ix in enumerate(groups):
        st = [dict(ev="configure", config=config(*[scs[i]["prog"] for i in ix]))]
        for h, i in enumerate(ix):
            st += steps(scs[i], 2 + h, h) + [dict(ev="ctx_drop", ctx=2 + h)]
        conc.append(dict(id=str(g), log_level=1 if scs[ix[0]]["prog"]["trace"] else 3, steps=st))
    res = [None] * len(scs)
    redo = []
    for ix, o in zip(groups, vlib.run_scenarios(conc, wd)):
        obs = o["obs"]
        if len(ix) > 1 and (o.get("fatal") or any(x.get("panicked") for x in obs) or obs[0]["ret"] is not True):
            redo += ix
            continue
        if not obs or obs[0]["ret"] is not True:
            for i in ix:
                res[i] = [dict(ev="reqh", eos=False, chunk=NOCHUNK, tok=0, res="", poss=True, m=[], seq=[],
                               ret=o.get("fatal") or "configuration rejected")]
            continue
        p = 1
        for h, i in enumerate(ix):
            n = len(scs[i]["events"])
            res[i] = trace(scs[i], obs[p + 1:p + 1 + n], 2 + h, h)
            if o.get("fatal") or o.get("drop_panic"):
                res[i].append(dict(ev="reqh", eos=False, chunk=NOCHUNK, tok=0, res="", poss=True, m=[], seq=[],
                                   ret=o.get("fatal") or "panic at drop"))
            p += n + 2
    if redo:
        for i, t in zip(redo, run([scs[i] for i in redo], wd, 1)):
            res[i] = t
    return res


BAD_CONFIG = dict(services=SERVICES, actionSets=[dict(
    name="broken", routeRuleConditions=dict(hostnames=["*"], predicates=[]),
    actions=[dict(type="headers", predicate="true", terminal=False, target="request", headers="[['x-broken'")])])


def run_interleaved(scs, wd, r, reconf=False, size=5):
    """Several requests at once in one filter, their events interleaved at random; with reconf, accepted and rejected
    configurations in between, each request under the one accepted when its stream was created.
    The calls of the request h of a group take the tokens from 1000 * (h + 1)."""
    import vlib
    groups = pack(scs, size)
    conc, where = [], []
    for g, ix in enumerate(groups):
        n = len(ix)
        own = [1000 * (h + 1) for h in range(n)]
        seqs = []
        for h, i in enumerate(ix):
            sc = dict(scs[i], prog=dict(scs[i]["prog"], tok0=own[h]))
            off = own[h] - scs[i]["prog"]["tok0"]
            sc["events"] = [dict(e, tok=e["tok"] + off) if "tok" in e else e for e in sc["events"]]
            scs[i] = sc
            seqs.append([("new", None)] + [("ev", e) for e in sc["events"]] + [("drop", None)])
        rot = 0
        host = {}
        st = [dict(ev="configure", config=config(*[scs[i]["prog"] for i in ix]))]
        pos = [[] for _ in ix]
        left = list(range(n))
        while left:
            if reconf and r.random() < 0.12:
                if r.random() < 0.4:
                    st.append(dict(ev="configure", config=BAD_CONFIG) if r.random() < 0.5 else dict(ev="configure", raw="{"))
                else:
                    rot = r.randrange(n)
                    st.append(dict(ev="configure", config=config(*[scs[ix[(h + rot) % n]]["prog"] for h in range(n)])))
            h = r.choice(left)
            k, e = seqs[h].pop(0)
            if not seqs[h]:
                left.remove(h)
            if k == "new":
                host[h] = (h - rot) % n
                a = dict(steps(dict(scs[ix[h]], events=[]), 2 + h, host[h])[0], own_token=own[h])
                del a["next_token"]
                st.append(a)
            elif k == "ev":
                pos[h].append(len(st))
                st.append(event(e, 2 + h, host[h]))
            else:
                st.append(dict(ev="ctx_drop", ctx=2 + h))
        conc.append(dict(id=str(g), log_level=1 if scs[ix[0]]["prog"]["trace"] else 3, steps=st))
        where.append((ix, pos, host))
    res = [None] * len(scs)
    cfgs = []
    for (ix, pos, host), c, o in zip(where, conc, vlib.run_scenarios(conc, wd)):
        obs = o["obs"]
        for s, x in zip(c["steps"], obs):
            if s["ev"] == "configure":
                cfgs.append((s.get("config") not in (None, BAD_CONFIG), x["ret"]))
        for h, i in enumerate(ix):
            res[i] = trace(scs[i], [obs[p] for p in pos[h] if p < len(obs)], 2 + h, host.get(h, h))
            if o.get("fatal") or o.get("drop_panic") or any(x.get("panicked") for x in obs):
                res[i].append(dict(ev="reqh", eos=False, chunk=NOCHUNK, tok=0, res="", poss=True, m=[], seq=[],
                                   ret=str(o.get("fatal") or "panic")))
    return res, conc, [x for x in cfgs if x[0] != x[1]]


METRICS = {"kuadrant.configs": None, "kuadrant.hits": "hits", "kuadrant.allowed": "allowed",
           "kuadrant.denied": "denied", "kuadrant.errors": "errors", "kuadrant.misses": "misses"}


def observe(o, ctx=2):
    """One recorded step of the harness in the vocabulary of the specification: ret, seq, m."""
    calls = {c["tok"]: c for c in o["calls"] if c.get("tok")}
    fails = [c for c in o["calls"] if c.get("fail")]
    sets = list(o["hdr_sets"])
    props = list(o["props"])
    replies = list(o["reply"]) if isinstance(o["reply"], list) else ([o["reply"]] if o["reply"] else [])
    seq = []

    def body_of(c):
        m = c.get("msg")
        d = m.get("domain") if isinstance(m, dict) else None
        if isinstance(d, str) and d.startswith("a") and ":" in d:
            return d[1:].split(":", 1)
        return ["?", json.dumps(m, sort_keys=True)]

    prev = o.get("_prev", {})
    for s in o["seq"]:
        if s.startswith("call:"):
            tok = s[5:]
            c = calls[int(tok)]
            seq.append(["X", tok] if c["cluster"] == "cl-trace" else ["C", tok] + body_of(c))
        elif s == "callfail":
            seq.append(["F"] + body_of(fails.pop(0)))
        elif s == "reply":
            r = replies.pop(0)
            h = {n: v for n, v in r["headers"]}
            t = "t" if TRACK in h and h.pop(TRACK) == "rid-%d" % ctx else ""
            by = h.pop("x-by", "")
            body = r["body"]
            if r["status"] == 500 and not by and not h:
                x = ["500", ""]
            elif by.startswith("a") and not h and r["status"] == status_of(by[1:]) and isinstance(body, str) and body.startswith("b:"):
                x = [by[1:], body[2:]]
            else:
                x = ["?", json.dumps(r, sort_keys=True)]
            seq.append(["R"] + x + [t])
        elif s.startswith("resume:"):
            seq.append(["U", s[7:]])
        elif s.startswith("hdr:"):
            side = s[4:]
            sd, lst = sets.pop(0)
            old = prev.get(side, [])
            new = [p for p in lst if p not in old]
            gone = [p for p in old if p not in lst]
            prev[side] = lst
            if gone or len(new) != 1:
                seq.append(["H", side, "?", json.dumps([new, gone])])
            elif new[0][0] == TRACK and new[0][1] == "rid-%d" % ctx:
                seq.append(["H", side, "track", ""])
            elif new[0][0].startswith("x-a") and new[0][1].startswith("h:"):
                seq.append(["H", side, new[0][0][3:].replace("-", "."), new[0][1][2:]])
            else:
                seq.append(["H", side, "?", json.dumps(new)])
        elif s == "prop":
            p = props.pop(0)
            path, v = p[0], p[1]
            known = len(path) == 1 and path[0].startswith("kuadrant.")
            seq.append(["P", path[0][9:] if known else "?" + json.dumps(path), prop_val(v)])
        else:
            seq.append(["?", s])
    m = []
    for x in o["metrics"]:
        name = x[0] if isinstance(x, list) else x
        n = METRICS.get(name, "?" + name)
        m += [n] * (x[1] if isinstance(x, list) and len(x) > 1 and isinstance(x[1], int) else 1)
    ret = o["ret"] if o["ret"] in ("Continue", "Pause") else ""
    if o.get("panicked"):
        ret = "panic: " + str(o["ret"].get("panic") if isinstance(o["ret"], dict) else o["ret"])
    return dict(ret=ret, seq=seq, m=m)


def prop_val(v):
    """Exported values are google.protobuf.Value messages (the harness shows their bytes as text)."""
    if isinstance(v, str):
        if v[:1] == "\x1a" and len(v) >= 2 and ord(v[1]) == len(v) - 2:
            return v[2:]
        if v == "\x08\x00":
            return "~null"
        if v == "\x11" + "\x00" * 6 + "\ufffd" + "?":
            return "~int"
    return "?" + json.dumps(v, sort_keys=True)


NOCHUNK = dict(set={}, n=0, bad=False, close=False, eos=False)


def trace(sc, obs, ctx=2, host=0):
    """The abstract trace of a recorded run: what happened, whether the host could do it, and what it saw."""
    out = []
    rq = list(sc["req"])
    rs = list(sc["resp"])
    prev = {"req": [[n, v.replace("%d", str(ctx)).replace("x.shim", "p%d.shim" % host)] for n, v in REQ_HDRS], "resp": [list(x) for x in RESP_HDRS]}
    evs = sc["events"]
    assert len(obs) <= len(evs), (len(obs), len(evs))
    for e, o in zip(evs, obs):
        k = e["ev"]
        rec = dict(ev=k, eos=False, chunk=NOCHUNK, tok=0, res="", poss=True)
        sk = o.get("skipped")
        if sk:
            if sk in ("no more chunks", "nothing outstanding", "token not outstanding"):
                continue
            rec["poss"] = False
            rec.update(ret="", seq=[], m=[])
            if k in ("reqb", "respb"):
                src = rq if k == "reqb" else rs
                if not src:
                    continue
            out.append(rec)
            continue
        if k in ("reqh", "resph"):
            rec["eos"] = e["eos"]
        elif k in ("reqb", "respb"):
            c = (rq if k == "reqb" else rs).pop(0)
            rec["chunk"] = {x: c[x] for x in NOCHUNK}
        else:
            rec["tok"] = o["ret"]["tok"] if isinstance(o["ret"], dict) and "tok" in o["ret"] else e.get("tok", 0)
            rec["res"] = "garbage" if e["res"] == "empty" else e["res"]
        o["_prev"] = prev
        rec.update(observe(o, ctx))
        out.append(rec)
    return out
