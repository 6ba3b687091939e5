"""Checks over spec/Strings.tla: the functions on texts that expressions may use."""
import itertools, json, os, random, re
import vlib

MM = re.compile(r'<<"MISMATCH", (\d+), (\d+), "(\w+)", "(.*)">>')
CH = {"e1": "\u00e9", "e3": "\u65e5", "e4": "\U0001f600", "NBSP": "\u00a0", "EMSP": "\u2003"}
SYM = {v: k for k, v in CH.items()}
PER = 60  # questions in one request


def text(s):
    return "".join(CH.get(c, c) for c in s)


def lit(s):
    return "'%s'" % text(s).replace("\t", "\\t")


def cel(e, this):
    t, u, a, b = lit(e["t"]), lit(e["u"]), e["a"], e["b"]
    op = e["op"]
    un = (lambda n: "%du" % n) if e["un"] and a >= 0 and b >= 0 else str
    if op in ("lowerAscii", "upperAscii", "trim"):
        return "%s.%s()" % (this, op)
    if op in ("indexOf", "lastIndexOf", "split"):
        return "%s.%s(%s)" % (this, op, t)
    if op in ("indexOfAt", "lastIndexOfAt"):
        return "%s.%s(%s, %s)" % (this, op[:-2], t, un(a))
    if op == "charAt":
        return "%s.charAt(%d)" % (this, a)
    if op == "substring":
        return "%s.substring(%s)" % (this, un(a))
    if op == "substring2":
        return "%s.substring(%s, %s)" % (this, un(a), un(b))
    if op == "replace":
        return "%s.replace(%s, %s)" % (this, t, u)
    if op == "replaceN":
        return "%s.replace(%s, %s, %s)" % (this, t, u, un(a))
    if op == "splitN":
        return "%s.split(%s, %s)" % (this, t, un(a))
    if op in ("join", "joinWith"):
        return "[%s].join(%s)" % (", ".join(map(lit, e["l"])), t if op == "joinWith" else "")
    if op == "before":
        return "%s.substring(0, %s.indexOf(%s))" % (this, this, t)
    if op == "after":
        return "%s.substring(%s.indexOf(%s) + %d)" % (this, this, t, len(e["t"]))
    if op == "afterLast":
        return "%s.substring(%s.lastIndexOf(%s) + 1)" % (this, this, t)
    raise ValueError(op)


def chars(s):
    return [SYM.get(c, c) for c in s]


def shown(v):
    if v[0] == "num":
        return ["num", int(float(v[1]))]
    if v[0] == "str":
        return ["str", chars(v[1])]
    if v[0] == "list" and all(x[0] == "str" for x in v[1]):
        return ["list", [chars(x[1]) for x in v[1]]]
    return ["other", json.dumps(v)]


def scenario(es, i):
    texts, acts = [], []
    for k, e in enumerate(es):
        if e["lit"]:
            this = lit(e["s"])
        else:
            if e["s"] not in texts:
                texts.append(e["s"])
            this = "request.headers['x-t%d']" % texts.index(e["s"])
        acts.append(dict(type="store", predicate="true", terminal=False, isGuard=False, path="st%d" % k, exportToHost=True, value=cel(e, this)))
    cfg = dict(services={}, actionSets=[dict(name="s", routeRuleConditions=dict(hostnames=["*"]), actions=acts)])
    hs = [[":authority", "a.b"]] + [["x-t%d" % k, text(t)] for k, t in enumerate(texts)]
    return dict(id=str(i), log_level=3, steps=[
        dict(ev="configure", config=cfg), dict(ev="ctx_new", ctx=2),
        dict(ev="req_headers", ctx=2, eos=True, headers=hs, props=[[["request", "host"], "a.b"]])])


def ask(es, wd, cov, name):
    """Put the questions to the code and check its answers against the specification."""
    groups = [es[k:k + PER] for k in range(0, len(es), PER)]

    def run(gs, tag):
        scs = [scenario(g, k) for k, g in enumerate(gs)]
        out = []
        for sc, o in zip(scs, vlib.run_scenarios(scs, wd, name + tag)):
            if o.get("fatal") or any(x.get("panicked") for x in o["obs"]) or o["obs"][0]["ret"] is not True:
                out.append(None)
            else:
                out.append({p[0][0] if isinstance(p[0], list) else p[0]: p[2] for p in o["obs"][2]["props"]})
        return out, scs
    ans, scs = run(groups, "")
    lost = [k for k, a in enumerate(ans) if a is None]
    single = [(k, j) for k in lost for j in range(len(groups[k]))]
    one, oscs = run([[groups[k][j]] for k, j in single], "1") if single else ([], [])
    one = dict(zip(single, zip(one, oscs)))
    batch, steps = [], []
    for k, g in enumerate(groups):
        for j, e in enumerate(g):
            if ans[k] is None:
                a, sc = one[(k, j)]
                got = ["dead"] if a is None else find(a, 0)
            else:
                a, sc, got = ans[k], scs[k], find(ans[k], j)
            batch.append({**{x: e[x] for x in ("op", "s", "t", "u", "l", "a", "b")}, "got": got})
            steps.append(sc["steps"])
    f = os.path.join(wd, name + ".json")
    json.dump([{**b, "s": list(b["s"])} for b in batch], open(f, "w"))
    rc, out = vlib.tlc("StringsTrace", wd, env=dict(TRACE_FILE=f))
    if rc != 0:
        raise vlib.ToolError("TLC: " + out[-3000:])
    cov["traces_validated_against_impl"] += len(batch)
    cov["states"] += len(batch)
    if len(cov["samples"]) < 4:
        cov["samples"].append(dict(kind=name, trace=batch[len(batch) // 3]))
    bad = []
    for m in MM.finditer(out):
        i = int(m.group(1)) - 1
        b = batch[i]
        bad.append(dict(what="a function on texts", step=3, asked=b, spec=vlib.unquote(m.group(4)), code=b["got"], steps=steps[i]))
    return sorted(bad, key=lambda b: len(json.dumps(b["asked"])))


def find(a, j):
    for p, v in a.items():
        if p.split("\\.")[-1].split(".")[-1] == "st%d" % j:
            return shown(v)
    return ["err"]


OPS = ["indexOf", "indexOfAt", "lastIndexOf", "lastIndexOfAt", "charAt", "substring", "substring2", "lowerAscii", "upperAscii", "trim",
       "replace", "replaceN", "split", "splitN", "join", "joinWith", "before", "after", "afterLast"]
POS = ("indexOfAt", "lastIndexOfAt")


def question(op, s=(), t=(), u=(), l=(), a=0, b=0, lit=False, un=False):
    return dict(op=op, s=tuple(s), t=list(t), u=list(u), l=[list(x) for x in l], a=a, b=b, lit=lit, un=un)


def small():
    """Every text of up to 3 of three characters, every sought text of up to 2, every position."""
    C = ["a", "e1", "B"]
    out = []
    texts = [s for n in range(4) for s in itertools.product(C, repeat=n)]
    sought = [s for n in range(3) for s in itertools.product(C[:2], repeat=n)]
    for s in texts:
        for op in ("lowerAscii", "upperAscii"):
            out.append(question(op, s))
        for a in range(0, 5):
            out.append(question("charAt", s, a=a))
            out.append(question("substring", s, a=a))
            for b in range(0, 5):
                out.append(question("substring2", s, a=a, b=b))
        for t in sought:
            for op in ("indexOf", "lastIndexOf", "split", "before", "after", "afterLast"):
                if t or op != "split":
                    out.append(question(op, s, t))
            out.append(question("replace", s, t, ["x"]))
            for a in range(-1, 5):
                for op in POS:
                    out.append(question(op, s, t, a=a))
                if t:
                    out.append(question("splitN", s, t, a=a))
                out.append(question("replaceN", s, t, ["x", "y"], a=a))
    return out


def random_question(r):
    alpha = r.choice([["a", "b"], ["a", "e1", "e4"], ["a", "B", "e3", " ", "/", "."], ["x", "Z", "e1", "e3", "e4", " ", "\t", "NBSP", "EMSP", ",", "C"]])
    tx = lambda n: [r.choice(alpha) for _ in range(n)]
    s = tx(r.choice([0, 1, 2, 3, 5, 8, 12]))
    if r.random() < 0.6 and s:
        i = r.randrange(len(s))
        t = s[i:i + r.choice([1, 1, 2, 3])]
    else:
        t = tx(r.choice([0, 1, 1, 2, 3]))
    op = r.choice(OPS)
    if op in ("split", "splitN") and not t:
        t = ["a"]
    a = r.randint(0, len(s) + 2)
    b = r.randint(0, len(s) + 2)
    if op in ("replaceN", "splitN"):
        a = r.choice([-1, 0, 1, 2, 3, 5])
    elif op in POS and r.random() < 0.1:
        a = -1
    elif op == "charAt" and r.random() < 0.1:
        a = -1
    return question(op, s, t, tx(r.choice([0, 1, 2])), [tx(r.choice([0, 1, 3])) for _ in range(r.choice([0, 1, 2, 4]))], a, b,
                    lit=r.random() < 0.4, un=r.random() < 0.3)


def part(n=(12000, 200000), mlen=(3, 4)):
    def run(prop, tier, seed, cov):
        i = 0 if tier == "quick" else 1
        wd = vlib.workdir("strings-" + prop)
        rc, out = vlib.tlc("StringsMC", wd, env=dict(MAX_LEN=str(mlen[i])))
        g, d = vlib.tlc_counts(out)
        cov["states"] += d
        cov["transitions"] += g
        if rc in (12, 13):
            return [dict(what="the property fails in the model of the code", spec=out[-5000:], step=0)], []
        if rc != 0:
            raise vlib.ToolError("TLC: " + out[-3000:])
        r = random.Random("strings-%s-%d" % (prop, seed))
        bad = ask(small(), wd, cov, "every-small-text")
        return bad + ask([random_question(r) for _ in range(n[i])], wd, cov, "random-texts"), []
    return run
