"""Checks over spec/Body.tla: what is read from bodies that arrive in pieces."""
import json, os, random, re
import vlib

MM = re.compile(r'<<"MISMATCH", (\d+), (\d+), "(\w+)", "(.*)">>')
EDGE = re.compile(r'<<"E", (\d+), "(.*)">>')
RL = "envoy.service.ratelimit.v3.RateLimitRequest"
# as written, as a number of google.protobuf.Value prints, as text in CEL
NUMS = [("0", "0", "0"), ("7", "7", "7"), ("42", "42", "42"), ("-3", "-3", "-3"), ("1.5", "1.5", "1.5"), ("-0.25", "-0.25", "-0.25"),
        ("1e3", "1000", "1000"), ("1E+2", "100", "100"), ("2.5e-3", "0.0025", "0.0025"),
        ("9007199254740993", "9007199254740992", "9007199254740993"), ("-9223372036854775808", "-9223372036854776000", "-9223372036854775808"),
        ("9223372036854775807", "9223372036854776000", "9223372036854775807"),
        ("12345678901234567890", "12345678901234567000", "12345678901234567890"), ("1.0", "1", "1")]
SHORT = dict(n="\n", t="\t", r="\r", b="\b", f="\f", q='"', s="\\")
SHORT["/"] = "/"


def cps(s):
    return [ord(c) for c in s]


# ---- documents ------------------------------------------------------------------------------------------------------
def unit_text(u):
    if u["k"] == "raw":
        return chr(u["c"])
    if u["k"] == "esc":
        return "\\" + {"q": '"', "s": "\\"}.get(u["e"], u["e"])
    return "\\u" + (("%04x" if u["up"] else "%04X") % u["c"])


def tok_texts(d):
    """The tokens of a document as text, in the order of Tokens(d)."""
    k = d["k"]
    if k == "obj":
        out = ["{"]
        for i, x in enumerate(d["kids"]):
            out += ([","] if i else []) + ['"' + "".join(map(unit_text, x["key"])) + '"', ":"] + tok_texts(x["v"])
        return out + ["}"]
    if k == "arr":
        out = ["["]
        for i, x in enumerate(d["kids"]):
            out += ([","] if i else []) + tok_texts(x)
        return out + ["]"]
    if k == "str":
        return ['"' + "".join(map(unit_text, d["u"])) + '"']
    if k == "num":
        return [d["src"]]
    if k == "lit":
        return ["".join(map(chr, d["v"]))]
    return ["@"]


def abstract(d):
    k = d["k"]
    if k == "obj":
        return dict(k=k, kids=[dict(key=[unit(u) for u in x["key"]], v=abstract(x["v"])) for x in d["kids"]])
    if k == "arr":
        return dict(k=k, kids=[abstract(x) for x in d["kids"]])
    if k == "str":
        return dict(k=k, u=[unit(u) for u in d["u"]])
    if k == "num":
        return dict(k=k, raw=cps(d["raw"]), txt=cps(d["txt"]))
    if k == "lit":
        return dict(k=k, v=d["v"])
    return dict(k="bad")


def unit(u):
    return dict(k=u["k"], e=u["e"]) if u["k"] == "esc" else dict(k=u["k"], c=u["c"])


def render(d, ws):
    """Bytes of the document and the start and end of every token in them."""
    out, spans = ws().encode(), []
    for t in tok_texts(d):
        b = t.encode()
        spans.append((len(out), len(out) + len(b)))
        out += b + ws().encode()
    return out, spans


def place(spans, pos):
    """What has arrived when pos bytes have: the tokens, and what follows the last one."""
    n = sum(1 for _, b in spans if b <= pos)
    if n < len(spans) and spans[n][0] < pos:
        return n, "mid"
    return n, "ws" if pos > (spans[n - 1][1] if n else 0) else "none"


# ---- programs -------------------------------------------------------------------------------------------------------
def cel_text(s):
    return "'" + "".join({"'": "\\'", "\\": "\\\\", "\n": "\\n"}.get(c, c) for c in s) + "'"


def pointer(keys):
    return "".join("/" + "".join(map(chr, k)).replace("~", "~0").replace("/", "~1") for k in keys)


def config(p):
    fn = "requestBodyJSON" if p["side"] == "req" else "responseBodyJSON"
    acts = []
    for i, s in enumerate(p["stores"], 1):
        vs = ["%s(%s)" % (fn, cel_text(pointer(q))) for q in s["ptrs"]]
        vs = ["string(%s)" % v for v in vs] if s["text"] else vs
        acts.append(dict(type="store", predicate="true", terminal=False, isGuard=False, path="st%d" % i,
                         value="[%s]" % ", ".join(vs), exportToHost=True))
        if i == 1 and p["hold"]:
            acts.append(dict(type="grpc", predicate="size(st1) > 0", terminal=False, isGuard=True, var="h", service="hold",
                             messageBuilder=RL + " { domain: 'hold' }", onReply=[]))
    if p["usage"]:
        msg = " + '|' + ".join("string(%s(%s))" % (fn, cel_text(pointer(q))) for q in p["usage"])
        acts.append(dict(type="grpc", predicate="true", terminal=False, isGuard=False, var="u", service="deny" if p["deny"] else "allow",
                         messageBuilder=RL + " { domain: %s }" % msg, onReply=[]))
    svcs = {n: dict(type="ratelimit", endpoint=n, failureMode="deny" if n == "deny" else "allow", timeout="1s")
            for n in ("hold", "deny", "allow")}
    return dict(services=svcs, actionSets=[dict(name="s", routeRuleConditions=dict(hostnames=["*"]), actions=acts)])


def line_text(p, l):
    """A line of an event stream without its end."""
    if l["f"] == "":
        return ""
    if l["f"] != "data":
        return l["text"]
    sep = l["sep"]
    if l["d"] == 0:
        return "data" + sep
    if l["d"] < 0:
        return "data" + (sep or ":") + l["text"]
    ts = tok_texts(p["docs"][l["d"] - 1])[l["a"] - 1:l["b"]]
    return "data" + (sep or ":") + "".join(w + t for w, t in zip(l["ws"], ts))


def stream_bytes(p):
    out, last = "", ""
    for l in p["lines"]:
        t = line_text(p, l)
        end = l["end"]
        if t == "" and last == "\r" and end == "\n":
            end = "\r\n"
        out += t + end
        last = end
    return (p["bom"] + out + p["rest"]).encode()


def spec_prog(p):
    return dict(side=p["side"], sse=p["sse"], stores=p["stores"], hold=p["hold"], usage=p["usage"], deny=p["deny"],
                docs=[abstract(d) for d in p["docs"]],
                lines=[dict(f=l["f"], d=l.get("d", 0), a=l.get("a", 0), b=l.get("b", 0)) for l in p["lines"]])


# ---- scenarios ------------------------------------------------------------------------------------------------------
def steps(p, evs):
    """evs: ("chunk", bytes, eos) or ("answer",)"""
    hd = [[":method", "POST"], [":path", "/"], [":authority", "a.b"]]
    out = [dict(ev="configure", config=config(p)),
           dict(ev="ctx_new", ctx=2, fail_dispatch=[], req_chunks=[], resp_chunks=[]),
           dict(ev="req_headers", ctx=2, eos=p["side"] == "resp", headers=hd, props=[[["request", "host"], "a.b"]])]
    if p["side"] == "resp":
        out.append(dict(ev="resp_headers", ctx=2, eos=False, headers=[[":status", "200"]] + ([["content-type", p["ctype"]]] if p["ctype"] else [])))
    n0 = len(out)
    for e in evs:
        if e[0] == "chunk":
            out.append(dict(ev="%s_body" % p["side"], ctx=2, data=dict(hex=e[1].hex()), eos=e[2]))
        else:
            out.append(dict(ev="grpc", ctx=2, nth=0, json=dict(overall_code="OK")))
    return out, n0


def observe(o):
    if o.get("panicked"):
        return dict(seq=["panic"], errs=0)
    calls, props, reps = list(o["calls"]), list(o["props"]), list(o["reply"])
    errs = sum(x[1] if isinstance(x, list) else 1 for x in o["metrics"] if (x[0] if isinstance(x, list) else x) == "kuadrant.errors")

    def val(v):
        if v[0] in ("str", "num"):
            return dict(k=v[0], v=cps(v[1]))
        if v[0] in ("bool", "null"):
            return dict(k="lit", v=cps("null" if v[0] == "null" else "true" if v[1] else "false"))
        return dict(k="?", v=cps(json.dumps(v)))
    seq = []
    for x in o["seq"]:
        if x == "prop":
            q = props.pop(0)
            ok = len(q[0]) == 1 and q[0][0].startswith("kuadrant.st") and q[2] and q[2][0] == "list"
            seq.append(["P", q[0][0][11:], [val(v) for v in q[2][1]]] if ok else ["P", json.dumps(q), []])
        elif x.startswith("call"):
            c = calls.pop(0)
            d = c["msg"].get("domain", "")
            seq.append(["C", "hold", []] if c["cluster"] == "hold" and d == "hold" else ["C", "use", cps(d)])
        elif x == "reply":
            seq.append(["R", str(reps.pop(0)["status"])])
        elif not x.startswith("resume"):
            seq.append(["?", x])
    return dict(seq=seq, errs=errs)


def validate(scs, wd, cov, name):
    """scs: (program, [(("chunk", bytes, eos), abstract event)])"""
    conc, batch = [], []
    for i, (p, evs) in enumerate(scs):
        st, n0 = steps(p, [e for e, _ in evs])
        conc.append((dict(id=str(i), log_level=3, steps=st), n0))
    res = vlib.run_scenarios([c for c, _ in conc], wd, name)
    for (p, evs), (c, n0), o in zip(scs, conc, res):
        t, who = [], {}
        for k, ((e, a), x) in enumerate(zip(evs, o["obs"][n0:]), n0):
            if x.get("skipped"):
                continue
            who.update({c["tok"]: c["cluster"] for c in x["calls"]})
            if a["ev"] == "answer":
                a = dict(a, ev="hold" if who[x["ret"]["tok"]] == "hold" else "use")
            t.append(dict(a, o=observe(x), k=k))
        if o.get("fatal") or any(x.get("panicked") for x in o["obs"]):
            t = [dict(ev="chunk", upto=0, part="none", eos=True, k=0, o=dict(seq=[["dead", str(o.get("fatal"))]], errs=0))]
        batch.append(dict(p=spec_prog(p), ev=t))
    f = os.path.join(wd, name + ".json")
    json.dump(batch, open(f, "w"))
    rc, out = vlib.tlc("BodyTrace", wd, env=dict(TRACE_FILE=f))
    if rc != 0:
        raise vlib.ToolError("TLC: " + out[-3000:])
    n, _ = vlib.tlc_counts(out)
    cov["states"] += n
    cov["transitions"] += n - len(batch)
    cov["traces_validated_against_impl"] += len(batch)
    if batch and len(cov["samples"]) < 4:
        cov["samples"].append(dict(kind="body-" + name, trace=batch[min(3, len(batch) - 1)]))
    bad = []
    for m in MM.finditer(out):
        i, k = int(m.group(1)) - 1, int(m.group(2))
        e = batch[i]["ev"][k - 1]
        bad.append(dict(what="bodies: " + name, step=e["k"], spec=vlib.unquote(m.group(4)), p=batch[i]["p"], event=e,
                        body=repr(b"".join(x[1] for x, _ in scs[i][1] if x[0] == "chunk")), steps=conc[i][0]["steps"]))
    bad.sort(key=lambda b: len(json.dumps(b["steps"])))
    return bad


# ---- generation -----------------------------------------------------------------------------------------------------
WS = os.environ.get("WS", " \n\t\r")


class Gen:
    KEYS = ["a", "b", "c", "ab", "0", "1", "2", "10", "é", "日", "😀", "a b", "a/b", "m~n", "", "x\ny", 'q"', "\\", "/", "~1", "null"]

    def __init__(self, r, sse=None, small=False):
        self.r, self.sse, self.small = r, sse, small

    def text(self, s, key=False):
        """Units of a text."""
        r, out = self.r, []
        for c in s:
            short = [k for k, v in SHORT.items() if v == c]
            o = ord(c)
            if short and (o < 32 or c in '"\\' or r.random() < 0.3):
                if r.random() < 0.7:
                    out.append(dict(k="esc", e=short[0]))
                else:
                    out.append(dict(k="u", c=o, up=r.random() < 0.5))
            elif o < 32 or (o < 65536 and r.random() < 0.15):
                out.append(dict(k="u", c=o, up=r.random() < 0.5))
            elif o >= 65536 and not key and r.random() < 0.5:
                o -= 65536
                out += [dict(k="u", c=0xd800 + (o >> 10), up=True), dict(k="u", c=0xdc00 + (o & 1023), up=r.random() < 0.5)]
            else:
                out.append(dict(k="raw", c=o))
        return out

    def string(self):
        r = self.r
        s = "".join(r.choice("ab01 ,:{}[]/'\"\\\n\té€日😀\u2028\u007f~.-") for _ in range(r.choice([0, 1, 2, 3, 5, 8])))
        if r.random() < 0.15:
            s = r.choice(["true", "null", "12", "1.5", "{}", "[1]", "data: x", "\ufeff"])
        us = self.text(s)
        if r.random() < 0.03:
            us.insert(r.randrange(len(us) + 1), dict(k="u", c=r.choice([0xd800, 0xdfff, 0xdbff]), up=True))
            us = self.unpair(us)
        return us

    @staticmethod
    def unpair(us):
        """No half that a neighbour completes by chance."""
        out = []
        for u in us:
            if out and u["k"] == "u" and out[-1]["k"] == "u" and out[-1]["c"] in (0xd800, 0xdfff, 0xdbff):
                out.append(dict(k="raw", c=97))
            out.append(u)
        return out

    def scalar(self):
        r = self.r
        z = r.random()
        if z < 0.4:
            return dict(k="str", u=self.string())
        if z < 0.8:
            s, raw, txt = r.choice(NUMS)
            return dict(k="num", src=s, raw=raw, txt=txt)
        return dict(k="lit", v=cps(r.choice(["true", "false", "null"])))

    def doc(self, depth, bad=0.0):
        r = self.r
        if r.random() < bad:
            return dict(k="bad")
        z = r.random()
        if depth == 0 or z < 0.3:
            return self.scalar()
        n = r.choice([0, 1, 1, 2, 2, 3] if self.small else [0, 1, 2, 2, 3, 4, 5, 12] if depth < 3 else [1, 2, 3, 4])
        if z < 0.72:
            return dict(k="obj", kids=[dict(key=self.text(k, True), name=k, v=self.doc(depth - 1, bad)) for k in
                                       r.sample(self.KEYS[:6] if self.small else self.KEYS, min(n, 6))])
        return dict(k="arr", kids=[self.doc(depth - 1, bad) for _ in range(n)])

    def paths(self, d, pre=()):
        out = [(pre, d["k"])]
        if d["k"] == "obj":
            for x in d["kids"]:
                out += self.paths(x["v"], pre + (x["name"],))
        elif d["k"] == "arr":
            for i, x in enumerate(d["kids"]):
                out += self.paths(x, pre + (str(i),))
        return out

    def prog(self):
        r = self.r
        sse = self.sse if self.sse is not None else r.random() < 0.45
        side = "resp" if sse or r.random() < 0.5 else "req"
        depth = 2 if self.small else r.choice([1, 2, 3, 4])
        bad = r.choice([0, 0, 0, 0.06])
        docs = [self.doc(depth, bad)]
        if docs[0]["k"] not in ("obj", "arr") and r.random() < 0.8:
            docs = [dict(k="obj", kids=[dict(key=self.text("a", True), name="a", v=docs[0])])]
        for _ in range(r.randint(0, 2) if sse else 0):
            docs.append(docs[0] if r.random() < 0.2 else self.vary(docs[0]) if r.random() < 0.6 else self.doc(depth, bad))
        ps = [q for d in docs for q in self.paths(d)]
        # at the end of an event stream a container is shown as its text: not asked for
        whole = {q for q, k in ps if k in ("obj", "arr")} if sse else set()
        good = sorted({q for q, k in ps if k in ("str", "num", "lit") and (q or r.random() < 0.3)} - whole)
        other = sorted(({q for q, k in ps if k in ("obj", "arr")} | {("zz",), ("a", "zz")} | {q + ("a",) for q, _ in ps}) - whole)
        used = set()

        def pick():
            q = r.choice(good) if good and r.random() < 0.9 else r.choice(other)
            if q in used:
                return None
            used.add(q)
            return [cps(k) for k in q]
        stores = []
        for _ in range(r.randint(1, 2 if self.small else 3)):
            qs = [q for q in (pick() for _ in range(r.choice([1, 1, 2, 3]))) if q is not None]
            if qs:
                stores.append(dict(ptrs=qs, text=r.random() < 0.5))
        usage = []
        if side == "resp" and r.random() < 0.5:
            usage = [q for q in (pick() for _ in range(r.choice([1, 2]))) if q is not None]
        p = dict(side=side, sse=sse, stores=stores, hold=bool(stores) and r.random() < 0.35, usage=usage, deny=r.random() < 0.5, docs=docs, lines=[],
                 bom="", rest="", ctype="")
        if not stores and not usage:
            return self.prog()
        if sse:
            p["ctype"] = r.choice(["text/event-stream", "text/event-stream", "text/event-stream; charset=utf-8", "text/event-stream;charset=UTF-8",
                                    "Text/Event-Stream", "TEXT/EVENT-STREAM; Charset=utf-8"])
            p["lines"] = self.lines(p)
            p["rest"] = r.choice(["", "", "", "data: {", "data", ": x", "id: 1"])
            p["bom"] = r.choice(["", "", "", "\ufeff"])
        else:
            p["ctype"] = r.choice(["application/json", "application/json", "", "text/plain", "application/vnd.x+json"])
        return p

    def vary(self, d):
        if d["k"] == "obj":
            return dict(k="obj", kids=[dict(x, v=self.vary(x["v"])) for x in d["kids"]])
        if d["k"] == "arr":
            return dict(k="arr", kids=[self.vary(x) for x in d["kids"]])
        return d if d["k"] == "bad" or self.r.random() < 0.3 else self.scalar()

    def ws(self):
        return "".join(self.r.choice(WS) for _ in range(self.r.choice([0, 0, 0, 1, 2])))

    def lines(self, p):
        r, out = self.r, []
        sep = lambda: r.choice([":", ": ", ": "])
        for _ in range(r.choice([1, 2, 2, 3, 3, 4])):
            z = r.random()
            ls = []
            if z < 0.7:
                d = r.randint(1, len(p["docs"]))
                n = len(tok_texts(p["docs"][d - 1]))
                stop = n if r.random() < 0.9 else r.randint(1, n)
                cuts = sorted(r.sample(range(1, stop), min(stop - 1, r.choice([0, 0, 1, 2, 4])))) + [stop]
                a = 1
                for b in cuts:
                    ls.append(dict(f="data", d=d, a=a, b=b, sep=sep(), ws=[r.choice(["", "", " ", "  ", "\t"]) for _ in range(b - a + 1)]))
                    a = b + 1
                if r.random() < 0.06:
                    ls.append(dict(f="data", d=-1, a=0, b=0, sep=sep(), text=r.choice(["x", "[DONE]"])))
            elif z < 0.9:
                ls.append(dict(f="data", d=-1, a=0, b=0, sep=sep(), text=r.choice(["[DONE]", "[DONE]", "hi", "{", "\ufeff"])))
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                ls.insert(r.randint(0, len(ls)), dict(f="data", d=0, a=0, b=0, sep=r.choice(["", ":", ": "])) if r.random() < 0.3 else
                          dict(f="other", text=r.choice([":", ": note", ":data: x", "event: delta", "event:message", "id: 7", "id", "retry: 10", "retry: x", "datax: 1",
                                                         "Data: {}", "x", "dat: 1", "a b:c", " data: 1"])))
            out += ls + [dict(f="")] * r.choice([1, 1, 1, 1, 2, 0])
        style = r.choice(["\n", "\n", "\r\n", "\r", None])
        for i, l in enumerate(out):
            out[i] = dict(l, end=style or r.choice(["\n", "\r\n", "\r"]))
        return out

    def cuts(self, data):
        r = self.r
        n = len(data)
        z = r.random()
        if z < 0.15:
            return []
        if z < 0.3 and n < 120:
            return list(range(1, n))
        return sorted(r.randint(0, n) for _ in range(r.choice([1, 1, 2, 3, 5, 8])))

    def events(self, p):
        r = self.r
        if p["sse"]:
            data = stream_bytes(p)
            at = lambda pos: (0, "none")
        else:
            data, spans = render(p["docs"][0], self.ws)
            end = len(data)
            if r.random() < 0.12:  # the body ends early, but not with a number that could go on
                end = r.randint(0, len(data))
                n, part = place(spans, end)
                nums = [k for k, t in enumerate(tok_texts(p["docs"][0])) if t[0] in "-0123456789"]
                if (n - 1 in nums and part == "none") or (n in nums and part == "mid"):
                    end = len(data)
            data = data[:end]
            at = lambda pos: place(spans, pos)
        evs, last = [], 0
        cs = [c for c in self.cuts(data) if c <= len(data)] + [len(data)]
        sep_eos = r.random() < 0.25
        for i, c in enumerate(cs):
            eos = i == len(cs) - 1 and not sep_eos
            upto, part = at(c)
            evs.append((("chunk", data[last:c], eos), dict(ev="chunk", upto=upto, part=part, eos=eos)))
            last = c
            if p["hold"] and r.random() < 0.15:
                evs.append((("answer",), dict(ev="answer", upto=0, part="none", eos=False)))
        if sep_eos:
            upto, part = at(last)
            evs.append((("chunk", b"", True), dict(ev="chunk", upto=upto, part=part, eos=True)))
        if p["hold"]:
            evs.append((("answer",), dict(ev="answer", upto=0, part="none", eos=False)))
        return evs


# ---- behaviours of the model ------------------------------------------------------------------------------------------
def concrete(p, path, r):
    """Bytes and events for a behaviour of BodyMC."""
    data, spans = render(p["docs"][0], lambda: r.choice(WS))
    evs, last = [], 0
    for c in path:
        if len(c) == 1:
            evs.append((("answer",), dict(ev="answer", upto=0, part="none", eos=False)))
            continue
        u, x, eos = int(c[0]), c[1], c[2] == "+"
        if x == "mid":
            a, b = spans[u]
            pos = r.randint(max(a + 1, last), b - 1) if last < b - 1 else b - 1
        else:
            pos = (spans[u - 1][1] if u else 0) + (x == "ws")
        pos = max(pos, last)
        assert place(spans, pos) == (u, x), (path, pos, spans)
        evs.append((("chunk", data[last:pos], eos), dict(ev="chunk", upto=u, part=x, eos=eos)))
        last = pos
    return p, evs


def small(r):
    while True:
        p = Gen(r, sse=False, small=True).prog()
        if 2 <= len(tok_texts(p["docs"][0])) <= 14 and all(len(t) > 1 or t in "{}[],:@0123456789" for t in tok_texts(p["docs"][0])):
            # one-character tokens cannot be cut; the model cuts numbers too
            if not any(t.isdigit() and len(t) == 1 for t in tok_texts(p["docs"][0])):
                return p


def part(sse, n_mc=(60, 400), n_beh=(3000, 40000), n_rnd=(5000, 60000)):
    def run(prop, tier, seed, cov):
        i = 0 if tier == "quick" else 1
        wd = vlib.workdir("body-" + prop)
        r = random.Random("body-%s-%d" % (prop, seed))
        bad = []
        if not sse:
            progs = [small(r) for _ in range(n_mc[i])]
            f = os.path.join(wd, "progs.json")
            json.dump([spec_prog(p) for p in progs], open(f, "w"))
            rc, out = vlib.tlc("BodyMC", wd, env=dict(PROG_FILE=f))
            g, d = vlib.tlc_counts(out)
            cov["states"] += d
            cov["transitions"] += g
            if rc in (12, 13):
                return [dict(what="the property fails in the model of the code", spec=out[-5000:], step=0)], []
            if rc != 0:
                raise vlib.ToolError("TLC: " + out[-3000:])
            paths = {}
            for m in EDGE.finditer(out):
                paths.setdefault(int(m.group(1)) - 1, set()).add(tuple(map(tuple, json.loads(vlib.unquote(m.group(2))))))
            beh = []
            for k, ps in sorted(paths.items()):
                pre = {q[:-1] for q in ps}
                beh += [(k, q) for q in sorted(ps - pre)]
            cov["model_behaviours"] = cov.get("model_behaviours", 0) + len(beh)
            if len(beh) > n_beh[i]:
                beh = [beh[j] for j in sorted(r.sample(range(len(beh)), n_beh[i]))]
            bad += validate([concrete(progs[k], q, r) for k, q in beh], wd, cov, "behaviours")
        rnd = []
        for _ in range(n_rnd[i]):
            g = Gen(r, sse)
            p = g.prog()
            rnd.append((p, g.events(p)))
        return bad + validate(rnd, wd, cov, "random"), []
    return run


# ---- event streams, symbol by symbol ------------------------------------------------------------------------------------
SYM = dict(B="data: [DONE]", O="data", N=":n", C="\r", L="\n")


def streams(n_max, prop, seed, cov, n_model=5):
    """Every stream of up to n_max symbols (StreamMC checks every cut of those up to n_model), each cut at random."""
    import itertools
    wd = vlib.workdir("stream-" + prop)
    r = random.Random("stream-%s-%d" % (prop, seed))
    rc, out = vlib.tlc("StreamMC", wd, env=dict(MAX_LEN=str(n_model)))
    g, d = vlib.tlc_counts(out)
    cov["states"] += d
    cov["transitions"] += g
    if rc in (12, 13):
        return [dict(what="the property fails in the model of event streams", spec=out[-5000:], step=0)]
    if rc != 0:
        raise vlib.ToolError("TLC: " + out[-3000:])
    p = dict(side="resp", sse=True, stores=[dict(ptrs=[[cps("v")]], text=False)], hold=False, usage=[], deny=False, ctype="text/event-stream")
    scs, ss = [], []
    for n in range(n_max + 1):
        for s in itertools.product("DBONCL", repeat=n):
            # most of the longer ones say nothing new: at least two ends and a document
            if n > 4 and (sum(x in "CL" for x in s) < 3 or "D" not in s):
                continue
            data = "".join(SYM.get(x) or 'data: {"v":%d}' % i for i, x in enumerate(s, 1)).encode()
            # cuts fall around line ends as often as anywhere else
            ends = [i + k for i, b in enumerate(data) if b in b"\r\n" for k in (0, 1)]
            cs = sorted({r.choice(ends) if ends and r.random() < 0.6 else r.randint(0, len(data)) for _ in range(r.choice([0, 1, 2, 3, 5]))}) + [len(data)]
            evs, last = [], 0
            late = r.random() < 0.3
            for k, c in enumerate(cs):
                evs.append(("chunk", data[last:c], k == len(cs) - 1 and not late))
                last = c
            if late:
                evs.append(("chunk", b"", True))
            st, n0 = steps(p, evs)
            scs.append(dict(id=str(len(scs)), log_level=3, steps=st))
            ss.append((s, data))
    batch = []
    for (s, data), sc, o in zip(ss, scs, vlib.run_scenarios(scs, wd, "streams")):
        got = 0
        if o.get("fatal") or any(x.get("panicked") for x in o["obs"]):
            got = -1
        else:
            vs = [observe(x)["seq"] for x in o["obs"]]
            vs = [x for v in vs for x in v]
            if vs:
                got = int("".join(map(chr, vs[0][2][0]["v"]))) if len(vs) == 1 and vs[0][0] == "P" and vs[0][2][0]["k"] == "num" else -2
        batch.append(dict(s=list(s), got=got))
    f = os.path.join(wd, "streams.json")
    json.dump(batch, open(f, "w"))
    rc, out = vlib.tlc("StreamTrace", wd, env=dict(TRACE_FILE=f))
    if rc != 0:
        raise vlib.ToolError("TLC: " + out[-3000:])
    cov["traces_validated_against_impl"] += len(batch)
    cov["streams_enumerated"] = len(batch)
    bad = []
    for m in MM.finditer(out):
        i = int(m.group(1)) - 1
        bad.append(dict(what="event stream", step=len(scs[i]["steps"]), spec=m.group(4), code=batch[i]["got"], body=repr(ss[i][1]), steps=scs[i]["steps"]))
    return sorted(bad, key=lambda b: len(b["body"]))


def stream_part(n=(5, 6)):
    def run(prop, tier, seed, cov):
        i = 0 if tier == "quick" else 1
        return streams(n[i], prop, seed, cov, n[i]), []
    return run
