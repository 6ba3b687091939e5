"""What leaves the filter: calls, the contexts they carry, exported traces, the debug identifier (spec/Out.tla)."""
import json, os, random, re
import gen, shim, shimcheck, vlib

MM = re.compile(r'<<"MISMATCH", (\d+), (\d+), "(\w+)", "(.*)">>')
RLS, KRS = "envoy.service.ratelimit.v3.RateLimitService", "kuadrant.service.ratelimit.v1.RateLimitService"
AUTHS, DYN, TRACES = "envoy.service.auth.v3.Authorization", "dyn.v1.S1", "opentelemetry.proto.collector.trace.v1.TraceService"
CFGTYPE = dict(auth="auth", ratelimit="ratelimit", check="ratelimit-check", report="ratelimit-report", dynamic="dynamic", tracing="tracing")
# ways to declare a service: type, and for a dynamic one what it calls
KINDS = [("ratelimit", "", "", 4), ("check", "", "", 2), ("report", "", "", 2), ("auth", "", "", 3), ("dynamic", DYN, "M", 3),
         ("dynamic", RLS, "ShouldRateLimit", 1), ("dynamic", KRS, "CheckRateLimit", 1), ("dynamic", KRS, "Report", 1), ("dynamic", AUTHS, "Check", 1)]
TIMES = [("", 0), ("", 0), ("10ms", 10), ("250ms", 250), ("1s", 1000), ("1500ms", 1500), ("2m", 120000), ("1h", 3600000), ("1s50ms", 1050), ("0.5s", 500)]
RIDS = ["rid-%d", "rid-%d", "Rid-%d", "RID-%dAbC", " %d-in ", "-%d-", "{%d}", "%d'quoted'", '%d"q"', "%d\\", "\\'%d", "%d\\n", "%d'+'x", "", "", "\u00e9-%d", "a b %d", "%d$1{x}"]
LEVELS = ["TRACE", "DEBUG", "DEBUG", "DEBUG", "INFO", "INFO", "INFO", "WARN", "ERROR", "OFF", "", "", "bogus", "debug"]
ON = ["TRACE", "DEBUG", "INFO"]
UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$")
TRACK = "x-track"


def family(a):
    if a["type"] == "auth" or a["svc"] == AUTHS:
        return "auth"
    return "dyn" if a["svc"].startswith("dyn.") else "rl"


# ---------------------------------------------------------------- configurations
def var_text(e, addr):
    v = shim.var_name(e["f"])
    f = family(addr[e["f"]])
    c = "has(%s.denied_response)" % v if f == "auth" else "%s.code == 2" % v if f == "dyn" else "%s.overall_code == 2" % v
    return "(%s ? 'over' : 'ok')" % c


def cel(e, addr, pred=False):
    if e["k"] == "VAR":
        return "%s == '%s'" % (var_text(e, addr), e["w"]) if pred else var_text(e, addr)
    return shim.cel_pred(e) if pred else shim.cel_str(e)


def action_cfg(prog, aid, h):
    a = prog["acts"][aid]
    addr = prog["addr"]
    c = shim.action_cfg(dict(prog, acts={k: dict(v, reply=[]) for k, v in prog["acts"].items()}), aid)
    c["predicate"] = cel(a["pred"], addr, True)
    v = cel(a["val"], addr)
    k = a["kind"]
    if k == "grpc":
        c["service"] = "s%d-%s" % (h, aid)
        m = "'a%s:' + %s" % (aid, v)
        f = family(addr[aid])
        c["messageBuilder"] = ("envoy.service.auth.v3.CheckRequest { attributes: envoy.service.auth.v3.AttributeContext { context_extensions: "
                               "{ 'by': %s } } }" % m if f == "auth" else
                               "dyn.v1.Req { id: %s }" % m if f == "dyn" else shim.RL + " { domain: %s }" % m)
        c["onReply"] = [action_cfg(prog, x, h) for x in a["reply"]]
        lab, src = a["label"].split("|")
        if lab:
            c["label"] = lab
        if src:
            c["sources"] = src.split(",")
    elif k == "deny":
        c["denyWith"] = "'not a reply'" if a["val"]["k"] == "BAD" else (
            "DenyResponse { status: %su, headers: [['x-by', 'a%s']], body: 'b:' + %s }" % (a["status"], aid, v))
    elif k == "headers":
        c["headers"] = "[['x-a%s', 'h:' + %s]]" % (aid.replace(".", "-"), v)
    elif k == "store":
        c["value"] = v
    return c


def service_cfg(a, mode):
    s = dict(type=CFGTYPE[a["type"]], endpoint=a["end"], failureMode=mode)
    if a["type"] == "dynamic":
        s.update(grpcService=a["svc"], grpcMethod=a["met"])
    t = next((t for t, ms in TIMES if ms == a["ms"] and t), "")
    if t:
        s["timeout"] = t
    return s


def config(ph, level):
    """The configuration of a phase, at a level."""
    c = dict(services={}, actionSets=[], descriptorService="cl-desc")
    for h, p in enumerate(ph["progs"]):
        for aid, a in p["acts"].items():
            if a["kind"] == "grpc":
                c["services"]["s%d-%s" % (h, aid)] = service_cfg(p["addr"][aid], a["mode"])
        name = p["set"].split("|")[0]
        rc = dict(hostnames=[host(h)])
        if name == "kuadrant.devMode":
            rc["predicates"] = ["false"]
        c["actionSets"].append(dict(name="other" if rc.get("predicates") else name, routeRuleConditions=rc,
                                    actions=[action_cfg(p, a, h) for a in p["top"]]))
    obs = {}
    if ph["track"]:
        obs["httpHeaderIdentifier"] = TRACK
    if level:
        obs["defaultLevel"] = level
    if ph["tracing"]:
        c["services"]["tracing"] = service_cfg(ph["taddr"], "allow")
        obs["tracing"] = dict(service="tracing")
    if obs:
        c["observability"] = obs
    return c


def bad_config(r, ph):
    """Something that is rejected, and would have changed tracing."""
    c = config(dict(ph, tracing=r.random() < 0.5, track=r.random() < 0.5), r.choice(LEVELS))
    z = r.random()
    if z < 0.4:
        c["actionSets"].append(dict(name="bad", routeRuleConditions=dict(hostnames=["*"], predicates=["1 +"]), actions=[]))
        return dict(ev="configure", config=c)
    if z < 0.7:
        c["actionSets"].append(dict(name="bad", routeRuleConditions=dict(hostnames=["*"], predicates=[]), actions=[
            dict(type="headers", predicate="true", terminal=False, target="request", headers="[['x'")]))
        return dict(ev="configure", config=c)
    return dict(ev="configure", raw=json.dumps(c)[:-2])


def host(h):
    return "p%d.out.test" % h


# ---------------------------------------------------------------- scenarios
def program(r, h, g, ph, ctx):
    """A program of Shim with addresses and a client."""
    p = g.prog()
    if ph.get("flush"):
        p = dict(p, top=[], acts={})
    p["track"], p["trace"] = ph["track"], ph["track"] and ph["tracing"]
    addr = {"trace": ph["taddr"]}
    for aid, a in p["acts"].items():
        a["label"], a["status"] = "|", str(shim.status_of(aid))
        if a["kind"] != "grpc":
            continue
        t, s, m, _ = r.choices(KINDS, [k[3] for k in KINDS])[0]
        if a["fault"] == "nodesc":
            t, s, m = "dynamic", "dyn.v1.S9", "M"
        addr[aid] = dict(type=t, svc=s, met=m, ms=r.choice(TIMES)[1],
                         end="cl-broken-%d" % r.randint(0, 1) if a["fault"] == "dispatch" else "cl-%d" % r.randint(0, 2))
        a["label"] = "%s|%s" % (r.choice(["", "lbl", "l\"%s" % aid]), r.choice(["", "ns/p", "a,b"]))
    rid = r.choice(RIDS)
    if "%d" in rid:
        rid = rid.replace("%d", str(ctx))
    cl = dict(rid=rid, tp="", state="", baggage="", id=ctx, rids=r.random() < 0.15, host=r.choice([host(h)] * 4 + [host(h).upper(), host(h) + ":8443"]))
    z = r.random()
    if z < 0.7 or not rid:
        cl["tp"] = "00-%032x-%016x-%s" % (0xabc0000 + ctx, 0xdef000 + ctx, "00" if rid and r.random() < 0.2 else "01")
    elif z < 0.8:
        cl["tp"] = r.choice(["garbage", "00-%032x-%016x-01" % (0, 5), "00-%032x-%016x-01" % (5, 0), ""])
    if r.random() < 0.4:
        cl["baggage"] = "k%d=v%d" % (ctx, ctx)
    if r.random() < 0.4:
        cl["state"] = "vnd=t%d" % ctx
    ok = cl["tp"].startswith("00-") and "abc" in cl["tp"]
    name = "set%d" % h
    if not p["top"] and p["track"] and not ph.get("flush") or (p["track"] and r.random() < 0.05):
        p = dict(p, top=[], acts={})
        name = "kuadrant.devMode"
    if not p["top"] and not p["track"]:
        return program(r, h, g, ph, ctx)
    return dict(p, addr=addr, tp=ok, sampled=not (ok and cl["tp"].endswith("00")), lvl=0, pend=False, tfault=ph["tfault"], client=cl,
                set="%s|%s|id" % (name, host(h)))


def phase(r, flush=False, big=False, dark=False, n=None, ctx0=2, levels=LEVELS, **over):
    ph = dict(track=flush or r.random() < 0.85, tracing=flush or r.random() < 0.85, tfault=not flush and r.random() < 0.06,
              taddr=dict(type="tracing", svc="", met="", ms=r.choice(TIMES)[1], end="cl-trace"), flush=flush, level=r.choice([x for x in levels if x in ON]) if flush or big else r.choice(levels))
    if dark:
        ph["track"], ph["tracing"] = r.choice([(False, True), (False, False), (True, False)])
    elif not ph["track"]:
        ph["tracing"] = False
    ph["big"] = big
    g = gen.Gen(r, **dict(over, trace=0))
    ph["progs"], ph["scs"] = [], []
    for h in range(1 if flush else n or r.randint(1, 3)):
        p = program(r, h, g, ph, ctx0 + h)
        req, resp = ([], []) if flush else (g.body(), g.body())
        ev = [dict(ev="reqh", eos=True), dict(ev="resph", eos=True)] if flush else g.events(req, resp, len(p["acts"]))
        p["req"], p["resp"] = req, resp
        ph["progs"].append(p)
        ph["scs"].append(dict(prog=p, req=req, resp=resp, events=ev))
    return ph


def scenario(r, **over):
    """Phases; in each a configuration and some requests, interleaved with changes of the level and rejected configurations."""
    dark, big = r.random() < 0.1, r.random() < 0.05
    levels = r.choice([LEVELS, LEVELS, ["TRACE", "DEBUG", "DEBUG", "INFO"], ["DEBUG", "TRACE"], ["DEBUG", "DEBUG", "TRACE", "WARN", ""]])
    over = dict(dict(ntop=(2, 6) if big else (1, 4), kinds=dict(grpc=r.choice([6, 16])), preds=dict(T=r.choice([14, 40]))), **over)
    held = big and r.random() < 0.85  # requests that are dropped while they wait: only a later one exports their spans
    if held:
        over.update(kinds=dict(grpc=9, headers=2, deny=0, store=0, fail=0), preds=dict(T=30, F=1, ERR=0, BAD=0, X=0),
                    exprs=dict(C=1, RQB=0, RSB=0, ST=0, VAR=0, ERR=0, BAD=0), faults=dict(dispatch=0, nodesc=0), par=0.8, hostfail=0)
    phs, ctx = [], 2
    for _ in range(1 if big else r.choice([1, 1, 2, 3])):
        ph = phase(r, dark=dark, big=big, n=r.randint(20, 44) if big else None, ctx0=ctx, levels=levels, **over)
        phs.append(ph)
        ctx += len(ph["progs"])
    if not dark:
        phs.append(phase(r, flush=True, ctx0=ctx, levels=levels, **over))
    script = []
    ctx = 2
    for n, ph in enumerate(phs):
        script.append(dict(ev="conf", ph=n, level=ph["level"], ok=True))
        if r.random() < 0.5:
            script.append(dict(ev="log", level=r.randint(0, 4)))
        left = [[dict(ev="new")] + [dict(e) for e in s["events"]] + [dict(ev="drop")] for s in ph["scs"]]
        if ph["big"] and held:
            left = [[e for e in x if e["ev"] not in ("grpc", "resph", "respb")] for x in left]
        live = list(range(len(left)))
        while live:
            z = r.random()
            if z < 0.03:
                script.append(dict(ev="conf", ph=n, level="", ok=False, bad=bad_config(r, ph)))
            elif z < 0.08 and ph["level"] in ON:
                script.append(dict(ev="conf", ph=n, level=r.choice([x for x in levels if x in ON]), ok=True))
            elif z < 0.11:
                script.append(dict(ev="log", level=r.randint(0, 4)))
            h = r.choice(live)
            e = left[h].pop(0)
            script.append(dict(e, c=ctx + h, h=h, ph=n))
            if not left[h]:
                live.remove(h)
        ctx += len(ph["progs"])
    return dict(phs=phs, script=script, log=r.randint(0, 4))


def result(e):
    r = e["res"]
    if r == "status":
        return {s: dict(res=r, status=14) for s in (RLS, KRS, AUTHS, DYN, TRACES)}
    if r == "garbage":
        return {s: dict(res=r, raw="ffffffff") for s in (RLS, KRS, AUTHS, DYN, TRACES)}
    if r == "empty":
        return {s: dict(res=r) for s in (RLS, KRS, AUTHS, DYN, TRACES)}
    rl = dict(overall_code="OVER_LIMIT" if r == "over" else "OK")
    au = dict(denied_response=dict(body="b")) if r == "over" else dict(ok_response={}, status=dict(code=0, message="m"))
    return {RLS: dict(res=r, json=rl), KRS: dict(res=r, json=rl), AUTHS: dict(res=r, json=au),
            DYN: dict(res=r, json=dict(code="2" if r == "over" else "1")), TRACES: dict(res=r, json={})}


def req_headers(p, h):
    cl = p["client"]
    out = [[":method", "POST"], [":path", "/p"], [":authority", cl["host"]], ["x-client", "c"]]
    if cl["rid"]:
        out.append(["x-request-id", cl["rid"]])
        if cl["rids"]:
            out.append(["x-request-id", "second"])
    for n, v in (("traceparent", cl["tp"]), ("tracestate", cl["state"]), ("baggage", cl["baggage"])):
        if v:
            out.append([n, v])
    return out


def step(e, sc):
    """Concrete steps of one line of the script."""
    ev = e["ev"]
    if ev == "log":
        return [dict(ev="log_level", level=e["level"])]
    ph = sc["phs"][e["ph"]]
    if ev == "conf":
        if not e["ok"]:
            return [e["bad"]]
        keys = sorted({(a["end"], DYN) for p in ph["progs"] for a in p["addr"].values() if a["svc"] == DYN})
        return [dict(ev="configure", config=config(ph, e["level"])),
                dict(ev="root_grpc", nth=0, status=0, json=dict(descriptors=[
                    dict(cluster=c, service=s, fds=dict(services=["S1"], ver=1, broken=False)) for c, s in keys]))]
    c, s = e["c"], ph["scs"][e["h"]]
    p = s["prog"]
    if ev == "new":
        f = p["fail"]
        return [dict(ev="ctx_new", ctx=c, own_token=1000 * (c + 1), fail_dispatch=["cl-broken-0", "cl-broken-1"] + (["cl-trace"] if p["tfault"] else []),
                     fail_set_req="setreq" in f, fail_set_resp="setresp" in f, fail_set_prop="setprop" in f,
                     req_chunks=[dict(data=x["data"], eos=x["eos"]) for x in s["req"]],
                     resp_chunks=[dict(data=x["data"], eos=x["eos"]) for x in s["resp"]])]
    if ev == "drop":
        return [dict(ev="ctx_drop", ctx=c)]
    if ev == "reqh":
        return [dict(ev="req_headers", ctx=c, eos=e["eos"], headers=req_headers(p, e["h"]),
                     props=[[["request", "host"], p["client"]["host"]], [["request", "path"], "/p"], [["request", "method"], "POST"]])]
    if ev == "grpc":
        x = dict(ev="grpc", ctx=c, by=result(e))
        if "tok" in e:
            x["tok"] = 1000 * (c + 1) + e["tok"] - 2
            x["force"] = True
        else:
            x["nth"] = e["nth"]
        return [x]
    return [shim.event(e, c)]


# ---------------------------------------------------------------- what was observed
def message_of(c):
    m = c.get("msg")
    t = None
    if isinstance(m, dict):
        if set(m) == {"domain"}:
            t = m["domain"]
        elif set(m) == {"id"}:
            t = m["id"]
        else:
            ks = list(m)
            if len(ks) == 1 and ks[0] == "attributes":
                for k in ("context_extensions", "contextExtensions"):
                    if list(m["attributes"]) == [k]:
                        t = m["attributes"][k].get("by")
    if isinstance(t, str) and t.startswith("a") and ":" in t:
        return t[1:].split(":", 1)
    return ["?", json.dumps(m, sort_keys=True)]


class Reader:
    """Names for the identifiers the filter makes up: spans, traces and request ids."""

    def __init__(self, sc, obs):
        self.sc = sc
        self.rid, self.spans, self.trace = {}, {}, {}
        self.prog = {}
        ctx = 2
        for ph in sc["phs"]:
            for p in ph["progs"]:
                self.prog[ctx] = p
                if p["client"]["rid"]:
                    self.rid[ctx] = p["client"]["rid"]
                if p["tp"]:
                    self.trace[p["client"]["tp"][3:35]] = ctx
                ctx += 1
        roots = []
        for o in obs:
            for c in o["calls"]:
                m = c.get("msg")
                if c["cluster"] == "cl-trace" and isinstance(m, dict):
                    for s in m.get("spans", []):
                        self.spans[s["span"]] = s
                        if s["name"] == "kuadrant_filter":
                            roots.append(s)
        owner = {v: k for k, v in self.rid.items()}
        for s in roots:
            c = owner.get(dict(s["attrs"]).get("request_id"))
            if s["trace"] not in self.trace and c and not self.prog[c]["tp"]:
                self.trace[s["trace"]] = c

    def is_rid(self, c, v):
        if c not in self.rid and UUID.match(v) and v not in self.rid.values():
            self.rid[c] = v
        return self.rid.get(c) == v

    def md(self, call, c):
        hd = {}
        for n, v in call["md"]:
            hd.setdefault(n, []).append(v)
        cl = self.prog[c]["client"]
        rid = hd.pop("x-request-id", [])
        out = [self.caller(hd.pop("traceparent", []), c), "baggage", "state", "id"]
        if hd.pop("baggage", []) != ([cl["baggage"]] if cl["baggage"] else []):
            out[1] = "?"
        if [x for x in hd.pop("tracestate", []) if x] != ([cl["state"]] if cl["state"] and self.prog[c]["tp"] else []):
            out[2] = "?"
        if len(rid) != 1 or not self.is_rid(c, rid[0]):
            out[3] = "?" + json.dumps(rid)
        if hd:
            out.append(json.dumps(hd))
        return out

    def caller(self, tps, c):
        if not tps:
            return "none"
        p = self.prog[c]
        m = re.fullmatch(r"00-([0-9a-f]{32})-([0-9a-f]{16})-([0-9a-f]{2})", tps[0])
        if len(tps) > 1 or not m:
            return "?" + json.dumps(tps)
        tr, sp, fl = m.groups()
        if self.trace.setdefault(tr, c if not p["tp"] and c not in self.trace.values() else None) != c:
            return "?trace " + tr
        if fl != ("01" if p["sampled"] else "00"):
            return "?flags " + fl
        if not p["sampled"] or (p["tp"] and sp == p["client"]["tp"][36:52]):
            return "client"
        return self.span_name(sp, c) if sp in self.spans else "?lost"

    def span_name(self, sp, c):
        s = self.spans.get(sp)
        if s is None:
            return "?lost"
        if self.trace.get(s["trace"]) != c:
            return "?"
        if s["name"] == "kuadrant_filter":
            return "R"
        k = {"grpc": "g:", "grpc_request": "q:"}.get(s["name"])
        return k + self.task(dict(s["attrs"])) if k else "?" + s["name"]

    @staticmethod
    def task(at):
        t = at.get("task_id") or "?"
        return json.loads(t) if t.startswith('"') else t

    def span(self, s, keep):
        """<<request, name, id, parent, status>>"""
        at = dict(s["attrs"])
        c = self.trace.get(s["trace"])
        n = s["name"]
        p = self.prog.get(c)
        i = ""
        if n == "kuadrant_filter" and p:
            i = "|".join([str(at.get("action_set")), str(at.get("hostname")), "id" if self.is_rid(c, at.get("request_id") or "") else "?"])
        elif n == "grpc":
            src = at.get("sources") or "[]"
            i = "%s|%s|%s" % (self.task(at), at.get("action", ""), ",".join(json.loads(src)))
        elif n in ("grpc_request", "grpc_response") and p:
            i = self.task(at)
            a = p["addr"].get(i)
            if not a or at.get("var") != shim.var_name(i):
                i = "?" + json.dumps(at)
            elif n == "grpc_response":
                i += "/" + str(int(at.get("token_id", "0")) if str(at.get("token_id", "")).isdigit() else "?")
        elif n == "send_reply":
            i = str(at.get("status_code", ""))
        elif n == "headers":
            i = {"HttpRequestHeaders": "req", "HttpResponseHeaders": "resp"}.get(at.get("target"), "?" + str(at.get("target")))
        par = s["parent"]
        if p and par == (p["client"]["tp"][36:52] if p["tp"] else "") or (p and not p["tp"] and not par.strip("0")):
            pn = "client"
        else:
            pn = self.span_name(par, c)
        st = "E" if s["status"] == 2 and keep and n == "grpc_response" else ""
        return [str((c or 0) - 1), n, i, pn, st]


def observe(o, c, rd, prev):
    calls = list(o["calls"])
    sets, props, reps = list(o["hdr_sets"]), list(o["props"]), list(o["reply"])
    seq, to, md, x = [], [], [], []
    for s in o["seq"]:
        if s.startswith("call"):
            k = calls.pop(0)
            tr = k["cluster"] == "cl-trace"
            to.append([k["cluster"], k["service"], k["method"], str(k["timeout"])])
            md.append(rd.md(k, c))
            if tr:
                m = k["msg"]
                x += m.get("spans", [{}]) if isinstance(m, dict) else [{}]
            if k["fail"]:
                seq.append(["XF"] if tr else ["F"] + message_of(k))
            else:
                seq.append(["X", str(k["tok"])] if tr else ["C", str(k["tok"])] + message_of(k))
        elif s == "reply":
            r = reps.pop(0)
            hd = [list(y) for y in r["headers"]]
            t = [v for n, v in hd if n == TRACK]
            hd = [[n, v] for n, v in hd if n != TRACK]
            t = "" if not t else "t" if len(t) == 1 and rd.is_rid(c, t[0]) else "?" + json.dumps(t)
            by = hd[0][1] if len(hd) == 1 and hd[0][0] == "x-by" else ""
            body = r["body"]
            if r["status"] == 500 and not hd:
                y = ["500", ""]
            elif by.startswith("a") and r["status"] == shim.status_of(by[1:]) and isinstance(body, str) and body.startswith("b:"):
                y = [by[1:], body[2:]]
            else:
                y = ["?", json.dumps(r, sort_keys=True)]
            seq.append(["R"] + y + [t])
        elif s.startswith("resume:"):
            seq.append(["U", s[7:]])
        elif s.startswith("hdr:"):
            side = s[4:]
            _, lst = sets.pop(0)
            old = prev.get(side, [])
            new = [y for y in lst if y not in old]
            gone = [y for y in old if y not in lst]
            prev[side] = lst
            if gone or len(new) != 1:
                seq.append(["H", side, "?", json.dumps([new, gone])])
            elif new[0][0] == TRACK and rd.is_rid(c, new[0][1]):
                seq.append(["H", side, "track", ""])
            elif new[0][0].startswith("x-a") and new[0][1].startswith("h:"):
                seq.append(["H", side, new[0][0][3:].replace("-", "."), new[0][1][2:]])
            else:
                seq.append(["H", side, "?", json.dumps(new)])
        elif s == "prop":
            pr = props.pop(0)
            known = len(pr[0]) == 1 and pr[0][0].startswith("kuadrant.")
            seq.append(["P", pr[0][0][9:] if known else "?" + json.dumps(pr[0]), shim.prop_val(pr[1])])
        else:
            seq.append(["?", s])
    m = [shim.METRICS.get(y, "?" + str(y)) for y in o["metrics"]]
    ret = o["ret"] if o["ret"] in ("Continue", "Pause") else ""
    if o.get("panicked"):
        ret = "panic: " + str(o["ret"])
    return dict(ret=ret, seq=seq, m=m, to=to, md=md, x=x)


def trace(sc, res):
    """The abstract record of a run."""
    obs = res["obs"]
    rd = Reader(sc, obs)
    out, at = [], 0
    prev, left = {}, {}
    base = dict(ev="", c=0, eos=False, chunk=shim.NOCHUNK, tok=0, res="", poss=True, ret="", seq=[], m=[], to=[], md=[], x=[], level="", ok=True)
    if res.get("fatal") or res.get("drop_panic"):
        return [dict(base, ev="drop", c=1, seq=[["?", str(res.get("fatal") or "panic at drop")]])], rd
    for e in sc["script"]:
        n = len(step(e, sc))
        if at >= len(obs):
            break
        o = obs[at]
        at += n
        ev = e["ev"]
        if ev in ("log", "new"):
            if o["seq"]:
                out.append(dict(base, ev="drop", c=e.get("c", 2) - 1, seq=[["?", ev]]))
            continue
        if ev == "conf":
            out.append(dict(base, ev=ev, level=e["level"], ok=e["ok"], ret=o["ret"], seq=[] if not o.get("panicked") else [["panic"]],
                            x=[1 for k in o["calls"] if k["cluster"] == "cl-trace"]))
            continue
        c = e["c"]
        rec = dict(base, ev=ev, c=c - 1)
        if ev == "drop":
            rec["seq"] = [[s] for s in o["seq"]]
            out.append(rec)
            continue
        s = sc["phs"][e["ph"]]["scs"][e["h"]]
        rq, rs = left.setdefault(c, (list(s["req"]), list(s["resp"])))
        sk = o.get("skipped")
        if sk:
            if sk in ("no more chunks", "nothing outstanding", "token not outstanding"):
                continue
            if ev in ("reqb", "respb") and not (rq if ev == "reqb" else rs):
                continue
            out.append(dict(rec, poss=False))
            continue
        if ev in ("reqh", "resph"):
            rec["eos"] = e["eos"]
        elif ev in ("reqb", "respb"):
            y = (rq if ev == "reqb" else rs).pop(0)
            rec["chunk"] = {k: y[k] for k in shim.NOCHUNK}
        else:
            ret = o["ret"] if isinstance(o["ret"], dict) else {}
            rec["tok"] = ret.get("tok", 0)
            rec["res"] = "garbage" if e["res"] == "empty" else e["res"]
        pv = prev.setdefault(c, dict(req=req_headers(rd.prog[c], e["h"]), resp=[list(y) for y in shim.RESP_HDRS]))
        rec.update(observe(o, c, rd, pv))
        out.append(rec)
    for rec in out:
        if rec["ev"] != "conf":
            rec["x"] = [rd.span(s, with_status(sc)) for s in rec["x"]]
    return out, rd


def progs_of(sc, keep):
    out = []
    for n, ph in enumerate(sc["phs"]):
        for h, p in enumerate(ph["progs"]):
            q = {k: v for k, v in p.items() if k not in ("client", "req", "resp")}
            q["tok0"] = 1000 * (2 + len(out) + 1)
            q["status"] = keep
            out.append(q)
    return out


def run(scs, wd):
    conc = []
    for i, sc in enumerate(scs):
        st = []
        for e in sc["script"]:
            st += step(e, sc)
        conc.append(dict(id=str(i), log_level=sc["log"], steps=st))
    return vlib.run_scenarios(conc, wd, "out")


def readable(sc, res):
    try:
        return trace(sc, res)[0]
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
        # something left the filter that has no place in any run
        return [dict(ev="drop", c=1, seq=[["?", "unreadable: %r" % e]])]


def check(scs, wd, cov, name):
    res = run(scs, wd)
    recs = [readable(sc, r) for sc, r in zip(scs, res)]
    return judge(scs, recs, wd, cov, name)


def with_status(sc):
    """Whether the status of spans can be compared: where a level of DEBUG may not have been on, an error is recorded on another."""
    return not any(e["ev"] == "conf" and e["ok"] and e["level"] == "INFO" and sc["phs"][e["ph"]]["tracing"] for e in sc["script"])


def judge(scs, recs, wd, cov, name):
    f = os.path.join(wd, "batch-%s.json" % name)
    json.dump([dict(p=progs_of(sc, with_status(sc)), ev=t) for sc, t in zip(scs, recs)], open(f, "w"))
    rc, out = vlib.tlc("OutTrace", wd, env=dict(TRACE_FILE=f))
    if rc != 0:
        if len(scs) == 1:
            return [dict(sc=scs[0], trace=recs[0], step=0, what="not a behaviour of the model", spec=out[-1500:])]
        h = len(scs) // 2
        bad = judge(scs[:h], recs[:h], wd, cov, name) or judge(scs[h:], recs[h:], wd, cov, name)
        if not bad:
            raise vlib.ToolError("TLC: " + out[-3000:])
        return bad
    n, _ = vlib.tlc_counts(out)
    cov["states"] += n
    cov["transitions"] += n - len(scs)
    cov["traces_validated_against_impl"] += len(scs)
    cov["events"] = cov.get("events", 0) + sum(len(t) for t in recs)
    cov["spans_compared"] = cov.get("spans_compared", 0) + sum(len(e["x"]) for t in recs for e in t if e["ev"] != "conf")
    cov["calls_compared"] = cov.get("calls_compared", 0) + sum(len(e["to"]) for t in recs for e in t)
    bad = []
    for m in MM.finditer(out):
        i = int(m.group(1)) - 1
        bad.append(dict(sc=scs[i], trace=recs[i], step=int(m.group(2)), what=m.group(3), spec=vlib.unquote(m.group(4))))
    bad.sort(key=lambda b: (len(json.dumps(b["sc"])), b["step"]))
    return bad


# ---- behaviours of the model ------------------------------------------------------------------------------------------
EDGE = re.compile(r'<<"E", (\d+), "(.*)">>')
CLEAN = ("client",)


def small(r):
    """One phase of one or two small programs."""
    n = r.choice([1, 2, 2])
    levels = ["DEBUG", "INFO"]
    while True:
        ph = phase(r, n=n, levels=levels, ntop=(1, 3) if n == 1 else (1, 2), depth=1, body=0.25 if n == 1 else 0.05,
                   kinds=dict(grpc=12), preds=dict(T=40))
        if sum(a["kind"] == "grpc" for p in ph["progs"] for a in p["acts"].values()) <= (4 if n == 1 else 3):
            break
    for s in ph["scs"]:
        s["req"], s["resp"] = s["req"][:1], s["resp"][:1]
        s["prog"]["req"], s["prog"]["resp"] = s["req"], s["resp"]
    if r.random() < 0.8:
        ph["track"] = ph["tracing"] = True
        for p in ph["progs"]:
            p["track"] = p["trace"] = True
    return ph


def history(r, ph, path):
    """A history of OutMC as a scenario."""
    script = [dict(ev="conf", ph=0, level=ph["level"], ok=True)]
    script += [dict(ev="new", c=2 + h, h=h, ph=0) for h in range(len(ph["progs"]))]
    for c, code in path:
        if c == 0:
            script.append(dict(ev="conf", ph=0, level=code, ok=True))
            continue
        h = c - 1
        s = ph["scs"][h]
        if code == "d":
            e = dict(ev="drop")
        elif code in "hbHB":
            e = shimcheck.decode(code, dict(reqeos=not s["req"], respeos=not s["resp"]))
        else:
            e = shimcheck.decode(code, None)
            e["tok"] -= 1000 * (c + 2) - 2
        script.append(dict(e, c=c + 1, h=h, ph=0))
    done = {c for c, code in path if code == "d"}
    script += [dict(ev="drop", c=c + 1, h=c - 1, ph=0) for c in range(1, len(ph["progs"]) + 1) if c not in done]
    fl = phase(r, flush=True, ctx0=2 + len(ph["progs"]), levels=["INFO" if any(x[1] == "INFO" for x in path) else "DEBUG"])
    if not ph["tracing"]:
        return dict(phs=[ph], script=script, log=r.randint(0, 4))
    k = 2 + len(ph["progs"])
    script.append(dict(ev="conf", ph=1, level=fl["level"], ok=True))
    script += [dict(dict(e), c=k, h=0, ph=1) for e in [dict(ev="new")] + fl["scs"][0]["events"] + [dict(ev="drop")]]
    return dict(phs=[ph, fl], script=script, log=r.randint(0, 4))


def part(n_mc=(30, 200), n_beh=(1000, 25000), n_rnd=(900, 25000)):
    def run_(prop, tier, seed, cov):
        i = 0 if tier == "quick" else 1
        wd = vlib.workdir("out-" + prop)
        r = random.Random("out-%s-%d" % (prop, seed))
        phs = [small(r) for _ in range(n_mc[i])]
        f = os.path.join(wd, "progs.json")
        json.dump([dict(level=ph["level"], p=[dict({k: v for k, v in p.items() if k not in CLEAN}, status=True, tok0=1000 * (3 + h),
                                                  req=shimcheck.abstract_body(p["req"]), resp=shimcheck.abstract_body(p["resp"]))
                                             for h, p in enumerate(ph["progs"])]) for ph in phs], open(f, "w"))
        rc, out = vlib.tlc("OutMC", wd, env=dict(PROG_FILE=f))
        g, d = vlib.tlc_counts(out)
        cov["states"] += d
        cov["transitions"] += g
        if rc in (12, 13):
            return [dict(what="the property fails in the model of the code", spec=out[-5000:], step=0)], []
        if rc != 0:
            raise vlib.ToolError("TLC: " + out[-3000:])
        paths = {}
        for m in EDGE.finditer(out):
            paths.setdefault(int(m.group(1)) - 1, set()).add(tuple(map(tuple, json.loads(vlib.unquote(m.group(2))))))
        beh = []
        for k, ps in sorted(paths.items()):
            pre = {q[:-1] for q in ps}
            beh += [(k, q) for q in sorted(ps - pre)]
        cov["model_behaviours"] = cov.get("model_behaviours", 0) + len(beh)
        if len(beh) > n_beh[i]:
            beh = [beh[j] for j in sorted(r.sample(range(len(beh)), n_beh[i]))]
        bad = []
        scs = [history(r, phs[k], q) for k, q in beh]
        for a in range(0, len(scs), 6000):
            bad += check(scs[a:a + 6000], wd, cov, "behaviours")
        for a in range(0, n_rnd[i], 3000):
            bad += check([scenario(r) for _ in range(min(3000, n_rnd[i] - a))], wd, cov, "random")
        return bad, []
    return run_
