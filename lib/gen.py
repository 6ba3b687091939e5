"""Random programs, bodies and schedules for spec/Shim.tla."""
import json, re

DEFAULT = dict(
    ntop=(1, 4), nested=0.45, depth=2, kinds=dict(grpc=6, deny=2, headers=3, store=2, fail=1),
    exprs=dict(C=10, RQB=1.2, RSB=1.2, ST=1.5, VAR=2, ERR=0.5, BAD=0.3), preds=dict(T=14, F=1.5, ERR=0.6, BAD=0.4, X=6),
    faults=dict(none=12, dispatch=1, nodesc=1), deny=0.5, guard=0.6, par=0.55, term=0.3, track=0.2, trace=0.08,
    hostfail=0.06, res=dict(ok=10, over=3, status=3, garbage=1.5, empty=0.7), resptgt=0.5, events=14, force=0.01,
    body=0.75, export=0.4, foreign=0.08)


PATHS = ["sa.x", "sa.y", "sb.z", "sc"]
ROOT = {p: (p.split(".")[0] if "." in p else "") for p in PATHS}


def pick(r, w):
    ks = list(w)
    return r.choices(ks, [w[k] for k in ks])[0]


FRAGMENT = re.compile(r'f|"[^"]*"?')


class Gen:
    def __init__(self, r, **over):
        self.r = r
        self.c = dict(DEFAULT)
        for k, v in over.items():
            self.c[k] = dict(self.c[k], **v) if isinstance(v, dict) and not k.startswith("=") else v

    def expr(self, aid, anc, pred=False):
        r = self.r
        k = pick(r, self.c["exprs"])
        if pred and k in ("C", "ERR", "BAD"):
            k = "VAR" if anc else r.choice(["ST", "RQB", "RSB"])
        if k == "VAR":
            pool = list(anc)
            if not pool or r.random() < self.c["foreign"]:
                # not its own: one whose number its own begins with, if there is one
                pool = [g for g in self.grpcs if aid.startswith(g) and g not in anc and g != aid and r.random() < 0.7] or self.grpcs
            if not pool:
                k = "C"
            else:
                return dict(k="VAR", f=r.choice(pool), w=r.choice(["ok", "over"]))
        if k == "C":
            return dict(k="C", f=r.choice(["x", "y"]), w="x")
        if k in ("RQB", "RSB"):
            return dict(k=k, f=r.choice(["f", "g"]), w=r.choice(["x", "y"]))
        if k == "ST":
            return dict(k=k, f=r.choice(PATHS), w=r.choice(["x", "y"]))
        return dict(k=k, f="", w="")

    def pred(self, aid, anc):
        k = pick(self.r, self.c["preds"])
        if k != "X":
            return dict(k=k, f="", w="")
        e = self.expr(aid, anc, True)
        return e

    def action(self, aid, parent, anc, depth):
        r = self.r
        k = pick(r, self.c["kinds"])
        wide = self.c.get("wide") and not parent
        if wide and aid == "1" and r.random() < 0.8:
            k = "grpc"
        a = dict(kind=k, pred=self.pred(aid, anc), val=dict(k="C", f="x", w=""), term=False, guard=False,
                 par=bool(parent) or r.random() < self.c["par"], mode="none", fault="none", reply=[], parent=parent, tgt="", path="",
                 export=False)
        if wide and len(aid) > 1 and r.random() < 0.6:
            a["par"] = False
            if "1" in self.grpcs and r.random() < 0.5:
                a["pred"] = dict(k="VAR", f="1", w=r.choice(["ok", "over"]))
        self.acts[aid] = a
        if k == "grpc":
            self.grpcs.append(aid)
            a["val"] = self.expr(aid, anc)
            a["guard"] = r.random() < self.c["guard"]
            a["mode"] = "deny" if r.random() < self.c["deny"] else "allow"
            a["fault"] = pick(r, self.c["faults"])
            if depth > 0 and r.random() < self.c["nested"]:
                for i in range(r.randint(1, 3)):
                    kid = "%s.%d" % (aid, i)
                    self.action(kid, aid, anc + [aid], depth - 1)
                    a["reply"].append(kid)
        elif k == "deny":
            a["val"] = self.expr(aid, anc)
            a["term"] = r.random() < 0.75
        elif k == "headers":
            a["val"] = self.expr(aid, anc)
            a["tgt"] = "resp" if r.random() < self.c["resptgt"] else "req"
            a["term"] = r.random() < self.c["term"] * 0.3
        elif k == "store":
            a["val"] = self.expr(aid, anc)
            a["path"] = r.choice(PATHS)
            a["export"] = r.random() < self.c["export"]
            a["term"] = r.random() < self.c["term"] * 0.3
        else:
            a["term"] = r.random() < max(self.c["term"], 0.5)
        return a

    def prog(self):
        r = self.r
        self.acts, self.grpcs = {}, []
        n = r.randint(*self.c["ntop"])
        top = [str(i) for i in range(n)]
        for aid in top:
            self.action(aid, "", [], self.c["depth"])
        track = r.random() < self.c["track"]
        trace = r.random() < self.c["trace"]
        if trace:
            track = True
        fail = [f for f in ("setreq", "setresp", "setprop") if r.random() < self.c["hostfail"]]
        return dict(top=top, acts=self.acts, track=track, trace=trace, tok0=2, fail=fail, root=ROOT)

    def body(self):
        """A document cut into chunks; what each chunk completes."""
        r = self.r
        z = r.random()
        if z > self.c["body"]:
            return []
        closed, bad, fields = True, False, {}
        if z < 0.06:
            text, bad, closed = "~garbage", True, False
            ends = {}
        else:
            ks = [k for k in ("f", "g", "h") if r.random() < (0.8 if k != "h" else 0.3)]
            r.shuffle(ks)
            text, ends = "{", {}
            for i, k in enumerate(ks):
                v = r.choice(["x", "y"])
                text += ("," if i else "") + '"%s":"%s"' % (k, v)
                fields[k] = v
                ends[k] = len(text)
            text += "}"
            if r.random() < 0.06:
                cut = r.randint(1, len(text) - 1)
                text = text[:cut]
                closed = False
                ends = {k: e for k, e in ends.items() if e <= cut}
        ncut = r.choice([0, 0, 1, 1, 2, 3])
        while True:
            cuts = sorted(r.randint(0, len(text)) for _ in range(ncut))
            # the rest of a document, read as one of its own, is known not to be one from its first chunk
            if not any(FRAGMENT.fullmatch(text[a:b]) for a, b in zip(cuts, cuts[1:] + [len(text)])):
                break
        bounds = list(zip([0] + cuts, cuts + [len(text)]))
        out = []
        for i, (a, b) in enumerate(bounds):
            out.append(dict(data=text[a:b], n=b - a, set={k: fields[k] for k, e in ends.items() if a < e <= b},
                            bad=bad and a == 0 and b > 0, close=closed and b == len(text) and a < b, eos=False))
        # a garbage document is known to be one from its first byte
        if bad and out[0]["n"] == 0:
            for x in out:
                if x["n"]:
                    x["bad"] = True
                    break
        z = r.random()
        if z < 0.6:
            out[-1]["eos"] = True
        elif z < 0.9:
            out.append(dict(data="", n=0, set={}, bad=False, close=False, eos=True))
        return out

    def result(self):
        return pick(self.r, self.c["res"])

    def events(self, req, resp, ngrpc):
        r = self.r
        ev = [dict(ev="reqh", eos=not req and r.random() < 0.8)]
        left_rq, left_rs = len(req), len(resp)
        seen_resp = False
        n = r.randint(4, self.c["events"]) + left_rq + left_rs
        for _ in range(n):
            w = dict(grpc=4 + ngrpc, reqb=3 if left_rq else 0.05, resph=0 if seen_resp else (0.5 if left_rq else 2),
                     respb=3 if left_rs and seen_resp else 0.05)
            k = pick(r, w)
            if k == "grpc":
                if r.random() < self.c["force"]:
                    ev.append(dict(ev="grpc", tok=r.randint(2, 6), force=True, res=self.result()))
                else:
                    ev.append(dict(ev="grpc", nth=r.choice([0, 0, 0, 1, 2]), res=self.result()))
            elif k == "resph":
                ev.append(dict(ev="resph", eos=not resp and r.random() < 0.8))
                seen_resp = True
            elif k == "reqb":
                ev.append(dict(ev="reqb"))
                left_rq = max(0, left_rq - 1)
            else:
                ev.append(dict(ev="respb"))
                left_rs = max(0, left_rs - 1)
        # let the request run to its end
        if r.random() < 0.7:
            fin = [dict(ev="grpc", nth=0, res="ok")] * 2
            ev += fin + [dict(ev="reqb")] * left_rq + fin * 2 + [dict(ev="resph", eos=not resp)] + fin
            for _ in range(left_rs):
                ev += [dict(ev="respb")] + fin
            ev += fin * 2
        return [dict(e) for e in ev]

    def scenario(self):
        p = self.prog()
        req, resp = self.body(), self.body()
        return dict(prog=p, req=req, resp=resp, events=self.events(req, resp, len(self.grpcs)))
