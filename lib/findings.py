"""Inputs for which the code is known to break a property: each is run, and what the code does is compared
with the specification. A difference that is exactly the one listed in KNOWN_FINDINGS.txt is reported as
KNOWN-FINDING; any other difference is a violation like every other."""
import os, re
import body, legacy, shimcheck, vlib


def listed():
    out = {}
    for l in open(os.path.join(vlib.VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
        if m:
            out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


ENV = {"request.host": "l0.shim.test", "request.method": "GET", "request.scheme": "https", "request.path": "/p",
       "request.protocol": "HTTP/1.1", "request.time": "2023-11-14T22:13:20.123456789Z", "source.address": "10.1.2.3:4711",
       "source.port": "4711", "destination.address": "10.9.8.7:80", "destination.port": "80", "request.useragent": "curl"}


def leg(svc, **o):
    return dict(dict(svc=svc, mode="deny", implicit=False, fault="none", scope="sc0", preds=[], cond=[]), **o)


def prog(*acts):
    return dict(top=[str(i) for i in range(len(acts))], acts={}, leg={str(i): a for i, a in enumerate(acts)}, rdata=[], xu=[],
                env=ENV, hdr={}, track=False, trace=False, tok0=2, fail=[], root=dict(legacy.gen.ROOT, auth=""))


def one(kind, k):
    return dict(ev="grpc", tok=k, res=kind)


FALSE_TERNARY = dict(k="F", f="", w="", tern=True)
TRUE = dict(k="T", f="", w="")
DATA = [dict(key="k0", x=dict(k="C", f="v", num=False, w=""), sta=True)]

LEGACY = {
    # a denied reply that leaves its status out: 403 by the API of Envoy and by the filter's own default
    "auth-denied-without-status": ("C10", dict(prog=prog(leg("auth")), req=[], resp=[], events=[
        dict(ev="reqh", eos=True), one("a-dens", 2)]),
        dict(step=2, ret="", seq=[["R", "500", "", ""]], m=["errors", "denied"])),
    "auth-denied-without-status-allow": ("C10", dict(prog=prog(leg("auth", mode="allow")), req=[], resp=[], events=[
        dict(ev="reqh", eos=True), one("a-dens", 2)]),
        dict(step=2, ret="", seq=[["U", "req"]], m=["errors"])),
    # the first of two blocks of data does not hold, the second does: the limit applies
    "conditional-data-ternary": ("C11", dict(prog=prog(leg("rl", cond=[
        dict(preds=[FALSE_TERNARY], data=DATA), dict(preds=[TRUE], data=DATA)])), req=[], resp=[], events=[
            dict(ev="reqh", eos=True)]),
        dict(step=1, ret="Continue", seq=[], m=["hits"])),
}


def bprog(doc, *keys):
    return dict(side="req", sse=False, stores=[dict(ptrs=[[body.cps(k) for k in keys]], text=False)], hold=False, usage=[], deny=False,
                docs=[doc], lines=[], bom="", rest="", ctype="application/json")


def chunk(data, upto):
    return (("chunk", data, True), dict(ev="chunk", upto=upto, part="none", eos=True))


SEVEN = dict(k="num", src="7", raw="7", txt="7")
TWELVE = dict(k="num", src="12", raw="12", txt="12")
U = lambda *cs: [dict(k="u", c=c, up=True) for c in cs]
BODY = {
    # a key written with the two escapes of one character is that character
    "escaped-key-surrogates": ("C17", (bprog(dict(k="obj", kids=[dict(key=U(0xd83d, 0xde00), name="\U0001f600", v=SEVEN)]), "\U0001f600"),
                                       [chunk(b'{"\\ud83d\\ude00":7}', 5)]), dict(seq=[], errs=0)),
    # the body ends within a number: there is no telling what it would have been
    "number-cut-short": ("C17", (bprog(dict(k="obj", kids=[dict(key=[dict(k="raw", c=97)], name="a", v=TWELVE)]), "a"),
                                 [(("chunk", b'{"a":1', True), dict(ev="chunk", upto=3, part="mid", eos=True))]),
                         dict(seq=[["P", "1", [dict(k="num", v=[49])]]], errs=0)),
}


def probe_bodies(prop, wd, lst, cov):
    known, bad = [], []
    for key, (p, sc, wrong) in BODY.items():
        if p == prop:
            for b in body.validate([sc], wd, cov, "findings"):
                if lst.get(key, ("",))[0] == prop and b["event"]["o"] == wrong:
                    known.append(lst[key][1])
                else:
                    bad.append(b)
    return bad, known


def probe(prop, tier, seed, cov):
    wd = vlib.workdir("findings-" + prop)
    lst = listed()
    bad, known = probe_bodies(prop, wd, lst, cov)
    for key, (p, sc, wrong) in LEGACY.items():
        if p != prop:
            continue
        for b in shimcheck.validate([sc], wd, cov, "findings", legacy.run):
            t = b["trace"][b["step"] - 1]
            if lst.get(key, ("",))[0] == prop and dict(step=b["step"], ret=t["ret"], seq=t["seq"], m=t["m"]) == wrong:
                known.append(lst[key][1])
            else:
                bad.append(b)
    return bad, known
