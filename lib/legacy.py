"""Legacy configurations (auth, ratelimit, ratelimit-check, ratelimit-report): generation, concretisation,
and the reading of what the host observes back into the vocabulary of spec/Legacy.tla."""
import json, random
import gen, shim

TYPE = {"auth": "auth", "rl": "ratelimit", "check": "ratelimit-check", "report": "ratelimit-report"}
METHOD = {("envoy.service.auth.v3.Authorization", "Check"): "auth",
          ("envoy.service.ratelimit.v3.RateLimitService", "ShouldRateLimit"): "rl",
          ("kuadrant.service.ratelimit.v1.RateLimitService", "CheckRateLimit"): "check",
          ("kuadrant.service.ratelimit.v1.RateLimitService", "Report"): "report"}
SVC_OF = {"envoy.service.auth.v3.Authorization": "a", "envoy.service.ratelimit.v3.RateLimitService": "r",
          "kuadrant.service.ratelimit.v1.RateLimitService": "r"}
AUTH_KINDS = {"a-ok": 5, "a-okh": 4, "a-okm": 4, "a-okmh": 4, "a-okm0": 0.5, "a-okx": 0.7, "a-den": 1.5, "a-den0": 0.7,
              "a-dent": 0.7, "a-none": 0.7}
RL_KINDS = {"r-ok": 6, "r-okh": 5, "r-over": 1.2, "r-overh": 1.2, "r-unk": 0.7}


def hv(k, v):
    return dict(header=dict(key=k, value=v))


REPLY = {
    "a-ok": dict(status={}, ok_response={}),
    "a-okh": dict(ok_response=dict(headers=[hv("x-auth", "g$TOK"), hv("x-auth", "h$TOK")])),
    "a-okm": dict(ok_response={}, dynamic_metadata=dict(identity=dict(user="u$TOK"))),
    "a-okmh": dict(ok_response=dict(headers=[hv("x-auth", "h$TOK")]), dynamic_metadata=dict(identity=dict(user="u$TOK"))),
    "a-okm0": dict(ok_response={}, dynamic_metadata={}),
    "a-okx": dict(ok_response=dict(response_headers_to_add=[hv("x-bad", "1")])),
    "a-den": dict(denied_response=dict(status=dict(code=401), headers=[hv("x-deny", "d$TOK"), hv("x-deny", "e$TOK")], body="b$TOK")),
    "a-den0": dict(denied_response=dict(status={}, body="b$TOK")),
    "a-dens": dict(denied_response=dict(body="b$TOK")),
    "a-dent": dict(denied_response=dict(status=dict(code=302), headers=[hv("location", "l$TOK")])),
    "a-none": dict(status=dict(code=7)),
    "r-ok": dict(overall_code="OK"),
    "r-okh": dict(overall_code="OK", response_headers_to_add=[dict(key="x-rl", value="l$TOK")]),
    "r-over": dict(overall_code="OVER_LIMIT"),
    "r-overh": dict(overall_code="OVER_LIMIT", response_headers_to_add=[dict(key="x-rl", value="l$TOK")]),
    "r-unk": dict(response_headers_to_add=[dict(key="x-unk", value="1")]),
    "ok": dict(overall_code="OK"), "over": dict(overall_code="OVER_LIMIT"),
}

TIME = 1700000000123456789
HDR_NAMES = {"x-auth"}
HV = 'request.headers["%s"]'


# ---------------------------------------------------------------- text of expressions
def val_text(x):
    k = x["k"]
    if k == "C":
        return '"%s"' % x["f"]
    if k in ("ATTR", "PORT"):
        return x["f"]
    if k == "HDR":
        return HV % x["f"]
    if k == "AU":
        return '("" + auth.identity.user)' if x.get("plus") else "auth.identity.user"
    if k == "RQB":
        return "requestBodyJSON('/%s')" % x["f"]
    if k == "RSB":
        return "responseBodyJSON('/%s')" % x["f"]
    if k == "ERR":
        return "string(1 / 0)"
    raise ValueError(k)


def pred_text(x):
    k = x["k"]
    if x.get("tern"):
        return "false ? false : true" if k == "T" else "true ? false : true"
    if k in ("T", "F", "ERR", "BAD"):
        return shim.cel_pred(x)
    if k in ("AND", "OR"):
        return "(" + (" && " if k == "AND" else " || ").join(pred_text(y) for y in x["s"]) + ")"
    return "%s == '%s'" % (val_text(x), x["w"])


def action_cfg(prog, aid, svc):
    a = prog["leg"][aid]
    c = dict(service=svc, scope=a["scope"])
    if a["preds"] or prog.get("verbose"):
        c["predicates"] = [pred_text(x) for x in a["preds"]]
    if a["cond"]:
        c["conditionalData"] = [dict(predicates=[pred_text(x) for x in b["preds"]], data=[
            dict(static=dict(key=d["key"], value=d["x"]["f"])) if d["sta"] else
            dict(expression=dict(key=d["key"], value=val_text(d["x"]))) for d in b["data"]]) for b in a["cond"]]
    return c


def timeout_of(h, aid):
    return 200 + 20 * h + int(aid)


def config(progs):
    c = dict(services=dict(shim.SERVICES), actionSets=[], requestData={})
    for h, p in enumerate(progs):
        acts = []
        for aid in p["top"]:
            if aid in p["leg"]:
                a = p["leg"][aid]
                svc = "s%d-%s" % (h, aid)
                c["services"][svc] = dict(type=TYPE[a["svc"]], endpoint="L%s-%d-%s" % ("broken" if a["fault"] == "dispatch" else "", h, aid),
                                          timeout="%dms" % timeout_of(h, aid))
                if not (a["mode"] == "deny" and a["implicit"]):
                    c["services"][svc]["failureMode"] = a["mode"]
                acts.append(action_cfg(p, aid, svc))
            else:
                acts.append(shim.action_cfg(p, aid))
        c["actionSets"].append(dict(name="set%d" % h, routeRuleConditions=dict(hostnames=[p["env"]["request.host"]]), actions=acts))
    for r in progs[0]["rdata"]:
        c["requestData"][(r["dom"] + "." if r["dom"] else "") + r["field"]] = val_text(r["x"])
    obs = {}
    if progs[0].get("track"):
        obs["httpHeaderIdentifier"] = shim.TRACK
    if obs:
        c["observability"] = obs
    return c


def base_hdrs(prog, ctx):
    h = [[":method", prog["env"]["request.method"]], [":path", "/p"], [":authority", prog["env"]["request.host"]],
         ["x-request-id", "rid-%d" % ctx], ["x-client", "c"]]
    if "x-auth" in prog["hdr"]:
        h.append(["x-auth", prog["hdr"]["x-auth"]])
    return h


def props(prog):
    out = []
    for k, v in prog["env"].items():
        if v == "~none":
            continue
        t = k.split(".")
        if v == "~err":
            out.append([t, {}])
        elif k.endswith(".port"):
            out.append([t, int(v)])
        elif k == "request.time":
            out.append([t, TIME])
        elif v == "~null":
            continue
        else:
            out.append([t, v])
    return out


def event(e, prog, ctx):
    k = e["ev"]
    if k == "reqh":
        return dict(ev="req_headers", ctx=ctx, eos=e["eos"], headers=base_hdrs(prog, ctx), props=props(prog))
    if k == "grpc":
        s = dict(ev="grpc", ctx=ctx, status=0)
        if "tok" in e:
            s["tok"] = e["tok"]
        else:
            s["nth"] = e["nth"]
        if e.get("force"):
            s["force"] = True
        by = {}
        for svc, fam in SVC_OF.items():
            kind = e["kinds"][fam] if "kinds" in e else e["res"]
            if kind in ("ok", "over") or kind[:2] != fam + "-":
                kind = {"ok": "r-ok", "over": "r-over"}.get(kind, kind)
            by[svc] = answer(kind)
        s["by"] = by
        return s
    return shim.event(e, ctx)


def answer(kind):
    if kind == "status":
        return dict(res=kind, status=14)
    if kind == "garbage":
        return dict(res=kind, raw="ffffffff")
    if kind == "empty":
        return dict(res=kind)
    return dict(res=kind, json=REPLY[kind])


def steps(sc, ctx, h):
    prog = sc["prog"]
    f = prog["fail"]
    new = dict(ev="ctx_new", ctx=ctx, next_token=prog["tok0"],
               fail_dispatch=shim.BROKEN + ["Lbroken-%d-%s" % (h, a) for a in prog["leg"]],
               fail_set_req="setreq" in f, fail_set_resp="setresp" in f, fail_set_prop="setprop" in f,
               req_chunks=[dict(data=x["data"], eos=x["eos"]) for x in sc["req"]],
               resp_chunks=[dict(data=x["data"], eos=x["eos"]) for x in sc["resp"]])
    return [new] + [event(e, prog, ctx) for e in sc["events"]]


# ---------------------------------------------------------------- observations
def take(d, k, default=None):
    return d.pop(k, default) if isinstance(d, dict) else default


def addr(p):
    p = p or {}
    sa = take(take(p, "address", {}) or {}, "socket_address", {}) or {}
    r = "%s#%s" % (take(sa, "address", ""), take(sa, "port_value", 0))
    return r, sa


def auth_text(m, prog, ctx):
    m = json.loads(json.dumps(m))
    a = take(m, "attributes", {})
    rq = take(a, "request", {})
    http = take(rq, "http", {})
    hd = take(http, "headers", {})
    want = {k: v for k, v in base_hdrs(prog, ctx) if k != "x-auth"}
    # headers set by actions of the typed kind are theirs
    low = {k.lower(): v for k, v in hd.items() if not (k.startswith("x-a") and v.startswith("h:"))}
    xa = low.pop("x-auth", "")
    odd = "" if low == want else "?headers" + json.dumps(hd)
    src, r1 = addr(take(a, "source"))
    dst, r2 = addr(take(a, "destination"))
    scope = take(take(a, "context_extensions", {}), "host", "")
    md = take(take(a, "metadata_context", {}), "filter_metadata", {})
    mds = ""
    for dom in sorted(md):
        for f in sorted(md[dom]):
            v = md[dom][f]
            if isinstance(v, dict) and list(v) == ["cel_expr"]:
                src_of = {r["field"]: val_text(r["x"]) for r in prog["rdata"] if (("io.kuadrant." + r["dom"]) if r["dom"] else "io.kuadrant") == dom}
                v = "cel" if v["cel_expr"] == src_of.get(f) else "?" + json.dumps(v)
            mds += "%s/%s=%s;" % (dom, f, v)
    out = "auth|" + "|".join([scope] + [str(take(http, x, "")) for x in ("host", "method", "scheme", "path", "protocol")]
                             + ["x-auth:" + xa, str(take(rq, "time", "")), src, dst, mds])
    for r in (m, a, rq, http, r1, r2):
        if r:
            odd += "?" + json.dumps(r)
    return out + odd


def rl_text(m, name):
    m = json.loads(json.dumps(m))
    out = "%s|%s|%s|" % (name, take(m, "domain", ""), take(m, "hits_addend", 0))
    for d in take(m, "descriptors", []):
        out += "{" + "".join("%s=%s;" % (e.get("key", ""), e.get("value", "")) for e in take(d, "entries", [])) + "}"
        if d:
            out += "?" + json.dumps(d)
    return out + ("?" + json.dumps(m) if m else "")


def call_text(c, prog, ctx, h):
    """[id, message] of a call"""
    m = c.get("msg")
    cl = c["cluster"]
    if cl.startswith("L"):
        hh, aid = cl.split("-")[1:3]
        name = METHOD.get((c["service"], c["method"]), "?")
        if int(hh) != h or c["timeout"] != timeout_of(h, aid):
            name = "?timeout%s" % c["timeout"]
        t = auth_text(m, prog, ctx) if name == "auth" else rl_text(m, name)
        if ["x-request-id", "rid-%d" % ctx] not in c["md"]:
            t += "?md" + json.dumps(c["md"])
        return [aid, t]
    d = m.get("domain") if isinstance(m, dict) else None
    if isinstance(d, str) and d.startswith("a") and ":" in d:
        return d[1:].split(":", 1)
    return ["?", json.dumps(m, sort_keys=True)]


def struct_text(v):
    """The identity of an exported value: a google.protobuf.Value holding a Struct, its bytes shown as text."""
    t = shim.prop_val(v)
    if not t.startswith("?"):
        return t
    if isinstance(v, str):
        if v == "":
            return "~nokey"
        i = v.find("\x04user")
        if "\x08identity" in v and i >= 0:
            w = v[i + 5:]
            # field 2 (Value) -> field 3 (string)
            if len(w) > 4 and w[0] == "\x12" and w[2] == "\x1a" and ord(w[3]) == len(w) - 4:
                return w[4:]
    return t


def observe(o, prog, ctx, h, st, tok):
    """One recorded step: ret, seq, m. st remembers the header maps and which action made which call."""
    calls = {c["tok"]: c for c in o["calls"] if c.get("tok")}
    fails = [c for c in o["calls"] if c.get("fail")]
    sets, prs = list(o["hdr_sets"]), list(o["props"])
    reps = list(o["reply"]) if isinstance(o["reply"], list) else ([o["reply"]] if o["reply"] else [])
    cur = st["act"].get(tok, "?")
    seq = []
    for s in o["seq"]:
        if s.startswith("call:"):
            c = calls[int(s[5:])]
            t = call_text(c, prog, ctx, h)
            st["act"][int(s[5:])] = t[0]
            seq.append(["C", s[5:]] + t)
        elif s == "callfail":
            seq.append(["F"] + call_text(fails.pop(0), prog, ctx, h))
        elif s == "reply":
            r = reps.pop(0)
            hd = [[n, v] for n, v in r["headers"]]
            t = ""
            if [shim.TRACK, "rid-%d" % ctx] in hd:
                hd.remove([shim.TRACK, "rid-%d" % ctx])
                t = "t"
            by = dict((n, v) for n, v in hd).get("x-by", "")
            body = r["body"] or ""
            if r["status"] == 500 and not hd:
                x = ["500", ""]
            elif by and len(hd) == 1 and by.startswith("a") and r["status"] == shim.status_of(by[1:]) and body.startswith("b:"):
                x = [by[1:], body[2:]]
            else:
                x = [cur + ".0", "%d|%s|%s" % (r["status"], ",".join("%s=%s" % (n, v) for n, v in hd), body)]
            seq.append(["R"] + x + [t])
        elif s.startswith("resume:"):
            seq.append(["U", s[7:]])
        elif s.startswith("hdr:"):
            side = s[4:]
            _, lst = sets.pop(0)
            old = st[side]
            name = lst[-1][0] if lst else "?"
            if sorted(lst[:-1]) != sorted(p for p in old if p[0] != name):
                seq.append(["H", side, "?", json.dumps([old, lst])])
            elif name == "x-auth" and side == "req":
                seq.append(["H", side, cur + ".3", lst[-1][1]])
            elif name == "x-rl" and side == "resp" and lst[-1][1][1:].isdigit():
                seq.append(["H", side, st["act"].get(int(lst[-1][1][1:]), "?") + ".1", lst[-1][1]])
            elif name == shim.TRACK and lst[-1][1] == "rid-%d" % ctx:
                seq.append(["H", side, "track", ""])
            elif name.startswith("x-a") and lst[-1][1].startswith("h:"):
                seq.append(["H", side, name[3:].replace("-", "."), lst[-1][1][2:]])
            else:
                seq.append(["H", side, "?", json.dumps(lst)])
            st[side] = lst
        elif s == "prop":
            p = prs.pop(0)
            path, v = p[0], p[1]
            known = len(path) == 1 and path[0].startswith("kuadrant.")
            seq.append(["P", path[0][9:] if known else "?" + json.dumps(path), struct_text(v)])
        else:
            seq.append(["?", s])
    m = []
    for x in o["metrics"]:
        n = shim.METRICS.get(x, "?" + str(x))
        m.append(n)
    ret = o["ret"] if o["ret"] in ("Continue", "Pause") else ""
    if o.get("panicked"):
        ret = "panic: " + str(o["ret"].get("panic") if isinstance(o["ret"], dict) else o["ret"])
    return dict(ret=ret, seq=seq, m=m)


def trace(sc, obs, ctx, h):
    prog = sc["prog"]
    out = []
    rq, rs = list(sc["req"]), list(sc["resp"])
    st = dict(act={}, req=base_hdrs(prog, ctx), resp=[list(x) for x in shim.RESP_HDRS])
    for e, o in zip(sc["events"], obs):
        k = e["ev"]
        rec = dict(ev=k, eos=False, chunk=shim.NOCHUNK, tok=0, res="", poss=True)
        sk = o.get("skipped")
        if sk:
            if sk in ("no more chunks", "nothing outstanding", "token not outstanding"):
                continue
            rec["poss"] = False
            rec.update(ret="", seq=[], m=[])
            if k in ("reqb", "respb") and not (rq if k == "reqb" else rs):
                continue
            out.append(rec)
            continue
        tok = 0
        if k in ("reqh", "resph"):
            rec["eos"] = e["eos"]
        elif k in ("reqb", "respb"):
            c = (rq if k == "reqb" else rs).pop(0)
            rec["chunk"] = {x: c[x] for x in shim.NOCHUNK}
        else:
            ret = o["ret"] if isinstance(o["ret"], dict) else {}
            tok = ret.get("tok", e.get("tok", 0))
            res = ret.get("res") or e.get("res") or "garbage"
            if st["act"].get(tok) not in prog["leg"] and res[:2] in ("r-", "a-"):
                res = "over" if res.startswith("r-over") else "ok"
            rec["tok"], rec["res"] = tok, "garbage" if res == "empty" else res
        rec.update(observe(o, prog, ctx, h, st, tok))
        out.append(rec)
    return out


def run(scs, wd, size=10):
    import vlib
    groups = {}
    for i, s in enumerate(scs):
        p = s["prog"]
        groups.setdefault((p["track"], json.dumps(p["rdata"])), []).append(i)
    packs = []
    for ix in groups.values():
        # one program per host name
        while ix:
            seen, now, rest = set(), [], []
            for i in ix:
                n = scs[i]["prog"]["env"]["request.host"]
                if n in seen or len(now) >= size:
                    rest.append(i)
                else:
                    seen.add(n)
                    now.append(i)
            packs.append(now)
            ix = rest
    return run_packs(scs, packs, wd)


def run_packs(scs, packs, wd):
    import vlib
    conc = []
    for g, ix in enumerate(packs):
        st = [dict(ev="configure", config=config([scs[i]["prog"] for i in ix]))]
        for h, i in enumerate(ix):
            st += steps(scs[i], 2 + h, h) + [dict(ev="ctx_drop", ctx=2 + h)]
        conc.append(dict(id=str(g), steps=st))
    res = [None] * len(scs)
    redo = []
    for ix, o in zip(packs, vlib.run_scenarios(conc, wd)):
        obs = o["obs"]
        if len(ix) > 1 and (o.get("fatal") or any(x.get("panicked") for x in obs) or obs[0]["ret"] is not True):
            redo += ix
            continue
        if not obs or obs[0]["ret"] is not True:
            for i in ix:
                res[i] = [dict(ev="reqh", eos=False, chunk=shim.NOCHUNK, tok=0, res="", poss=True, m=[], seq=[],
                               ret=o.get("fatal") or "configuration rejected")]
            continue
        p = 1
        for h, i in enumerate(ix):
            n = len(scs[i]["events"])
            res[i] = trace(scs[i], obs[p + 1:p + 1 + n], 2 + h, h)
            if o.get("fatal") or o.get("drop_panic"):
                res[i].append(dict(ev="reqh", eos=False, chunk=shim.NOCHUNK, tok=0, res="", poss=True, m=[], seq=[],
                                   ret=o.get("fatal") or "panic at drop"))
            p += n + 2
    if redo:
        sub = [scs[i] for i in redo]
        for i, t in zip(redo, run_packs(sub, [[j] for j in range(len(sub))], wd)):
            res[i] = t
    return res


# ---------------------------------------------------------------- generation
DEFAULT = dict(n=(1, 4), svc=dict(auth=3, rl=3, check=2, report=2), mixed=0.15, npred=(0, 0, 0, 1, 1, 2), nblock=(0, 0, 1, 1, 2, 3),
               px=dict(ATTR=6, HDR=3, AU=4, T=2, F=1.5, ERR=0.5, BAD=0.3, RSB=0.3, RQB=0.3, AND=1, OR=1),
               vx=dict(C=4, ATTR=5, PORT=2, HDR=1.5, AU=4, ERR=0.3, RSB=0.3, RQB=0.2),
               auth=AUTH_KINDS, rl=RL_KINDS, bad=dict(none=14, status=1.5, garbage=0.7, empty=0.3), deny=0.6, broken=0.06, rdata=0.5,
               events=10, hostfail=0.04)


class Gen:
    def __init__(self, r, **o):
        self.r = r
        self.c = dict(DEFAULT)
        for k, v in o.items():
            self.c[k] = dict(self.c[k], **v) if isinstance(v, dict) else v
        self.rdata = self.request_data()

    def leafy(self, k, env):
        r = self.r
        if k == "ATTR":
            a = r.choice(["request.method", "request.path", "request.useragent", "request.scheme"])
            v = env.get(a, "~null")
            w = v if r.random() < 0.6 and v[0] != "~" else r.choice(["GET", "/q", "curl"])
            return dict(k=k, f=a, w=w)
        if k == "PORT":
            return dict(k=k, f=r.choice(["source.port", "destination.port"]), w="")
        if k == "HDR":
            return dict(k=k, f="x-auth", w=r.choice(["h2", "h2", "h3", "forged"]))
        if k == "AU":
            return dict(k=k, f="user", plus=r.random() < 0.4, w=r.choice(["u2", "u2", "u3", "u4"]))
        if k == "C":
            if r.random() < 0.4:
                return dict(k=k, f=str(r.randint(0, 70)), num=True, w="")
            return dict(k=k, f=r.choice(["x", "y z", "\u00e9"]), num=False, w="")
        return dict(k=k, f=r.choice(["f", "g"]) if k in ("RSB", "RQB") else "", w=r.choice(["x", "y"]))

    def pred(self, env, depth=1):
        k = gen.pick(self.r, self.c["px"])
        if k in ("AND", "OR"):
            if depth == 0:
                return self.leafy("ATTR", env)
            return dict(k=k, s=[self.pred(env, 0), self.pred(env, 0)])
        x = self.leafy(k, env)
        if k in "TF" and depth and self.r.random() < 0.4:
            x["tern"] = True
        return x

    def datum(self, env, i):
        r = self.r
        key = r.choice(["k%d" % i, "k%d" % i, "a.b", "user"])
        z = r.random()
        if z < 0.1:
            key = "ratelimit.domain"
        elif z < 0.2:
            key = "ratelimit.hits_addend"
        if r.random() < 0.4:
            x = self.leafy("C", env)
            if key == "ratelimit.hits_addend" and not x["num"]:
                x["f"] = "abc"
            return dict(key=key, x=x, sta=True)
        return dict(key=key, x=self.leafy(gen.pick(r, self.c["vx"]), env), sta=False)

    def request_data(self):
        r = self.r
        if r.random() > self.c["rdata"]:
            return []
        names = r.sample([("metrics.labels", "user"), ("metrics.labels", "method"), ("", "plain"), ("org", "id"), ("org.sub", "p"),
                          ("", "tokens")], r.randint(1, 3))
        out = []
        for d, f in sorted(names):
            x = self.leafy(gen.pick(r, dict(ATTR=4, PORT=1, AU=3, HDR=1, C=1, RSB=1.5)), {})
            out.append(dict(dom=d, field=f, x=x, au=x["k"] == "AU"))
        return out

    def prog(self, host):
        r, c = self.r, self.c
        env = {"request.host": "l%d.shim.test" % host, "request.method": r.choice(["POST", "GET"]), "request.scheme": "https",
               "request.path": r.choice(["/p", "/q?x=1"]), "request.protocol": "HTTP/1.1", "request.time": "2023-11-14T22:13:20.123456789Z",
               "source.address": "10.1.2.3:4711", "source.port": "4711", "destination.address": "10.9.8.7:80",
               "destination.port": "80", "request.useragent": r.choice(["curl", "~null", "~null"])}
        n = r.randint(*c["n"])
        leg, acts, top = {}, {}, [str(i) for i in range(n)]
        g = gen.Gen(r, exprs=dict(RQB=0.3, RSB=0.3, ST=0.5, ERR=0.2, BAD=0.2))
        g.acts, g.grpcs = acts, []
        for aid in top:
            if r.random() < c["mixed"]:
                g.action(aid, "", [], 1)
                continue
            svc = gen.pick(r, c["svc"])
            a = dict(svc=svc, mode="deny" if r.random() < c["deny"] else "allow", implicit=r.random() < 0.3,
                     fault="dispatch" if r.random() < c["broken"] else "none", scope=r.choice(["sc%s" % aid, 'q"\\%s' % aid]),
                     preds=[self.pred(env) for _ in range(r.choice(c["npred"]))], cond=[])
            if svc != "auth":
                for b in range(r.choice(c["nblock"])):
                    a["cond"].append(dict(preds=[self.pred(env) for _ in range(r.choice(c["npred"]))],
                                          data=[self.datum(env, i) for i in range(r.choice([0, 1, 1, 2, 3]))]))
                # a known finding has its own probe (see findings.py)
                if len(a["cond"]) > 1:
                    for b in a["cond"]:
                        if len(b["preds"]) == 1:
                            b["preds"][0].pop("tern", None)
            leg[aid] = a
        # an attribute the host fails to give, in programs where nothing can be waited for
        txt = json.dumps([leg, self.rdata])
        if r.random() < 0.06 and not acts and not any('"%s"' % k in txt for k in ("AU", "RSB", "RQB")):
            env[r.choice(["request.useragent", "request.scheme", "source.port"])] = "~err"
        hdr = {"x-auth": "forged"} if r.random() < 0.5 else {}
        return dict(top=top, acts=acts, leg=leg, rdata=self.rdata, xu=sorted({d["x"]["f"] for d in self.rdata if d["x"]["k"] == "RSB"}),
                    env=env, hdr=hdr, track=self.track, trace=False, tok0=2,
                    fail=[f for f in ("setreq", "setresp", "setprop") if r.random() < c["hostfail"]], root=dict(gen.ROOT, auth=""))

    def kinds(self):
        b = gen.pick(self.r, self.c["bad"])
        if b != "none":
            return dict(a=b, r=b)
        return dict(a=gen.pick(self.r, self.c["auth"]), r=gen.pick(self.r, self.c["rl"]))

    def scenario(self, host, track=False):
        self.track = track
        p = self.prog(host)
        g = gen.Gen(self.r, events=self.c["events"])
        req, resp = g.body(), g.body()
        ev = g.events(req, resp, 2)
        for e in ev:
            if e["ev"] == "grpc":
                del e["res"]
                e["kinds"] = self.kinds()
        return dict(prog=p, req=req, resp=resp, events=ev)


def scenarios(r, count, size=10, **o):
    out = []
    while len(out) < count:
        g = Gen(r, **o)
        track = r.random() < 0.2
        for h in range(size):
            out.append(g.scenario(h, track))
    return out[:count]
