"""Checks over spec/Convert.tla: values on their way into calls, out of replies, to the host and to the client."""
import json, math, os, random, re, struct
import vlib

MM = re.compile(r'<<"MISMATCH", (\d+), (\d+), "(\w+)", "(.*)">>')
PER = 24
PKG = "conv.v1."
FULL = dict(Ts="google.protobuf.Timestamp", Struct="google.protobuf.Struct", Value="google.protobuf.Value", ListV="google.protobuf.ListValue")
INTS = {"i32": ("int32", "sint32", "sfixed32", "null", "enum"), "i64": ("int64", "sint64", "sfixed64")}
TYPE = dict(double=1, float=2, int64=3, uint64=4, int32=5, fixed64=6, fixed32=7, bool=8, string=9, message=11, bytes=12, uint32=13, enum=14,
            sfixed32=15, sfixed64=16, sint32=17, sint64=18, null=14)
ENUM = [("E_ZERO", 0), ("E_ONE", 1), ("E_SEVEN", 7), ("E_NEG", -1), ("E_BIG", 2147483647)]


def F(n, t, c="one", m="", on=""):
    return dict(n=n, t=t, c=c, m=m, on=on, kt="")


def MAP(n, kt, t, m=""):
    return dict(n=n, t=t, c="map", m=m, on="", kt=kt)


BIG = [F("b", "bool"), F("i32", "int32"), F("s32", "sint32"), F("x32", "sfixed32"), F("i64", "int64"), F("s64", "sint64"), F("x64", "sfixed64"),
       F("u32", "uint32"), F("y32", "fixed32"), F("u64", "uint64"), F("y64", "fixed64"), F("f", "float"), F("d", "double"),
       F("s", "string"), F("by", "bytes"), F("e", "enum"), F("ts", "message", m="Ts"), F("sub", "message", m="Sub"),
       F("pa", "string", on="pick"), F("pb", "int64", on="pick"), F("pc", "message", m="Sub", on="pick"),
       F("oi", "int32", "opt"), F("os", "string", "opt"), F("ob", "bool", "opt"), F("oe", "enum", "opt"),
       F("rb", "bool", "rep"), F("ri", "sint32", "rep"), F("ru", "fixed64", "rep"), F("rs", "string", "rep"), F("re", "enum", "rep"),
       F("rf", "float", "rep"), F("rd", "double", "rep"), F("ry", "bytes", "rep"),
       F("rt", "message", "rep", m="Ts"), F("rm", "message", "rep", m="Sub"),
       MAP("msi", "string", "int32"), MAP("mis", "int32", "string"), MAP("mum", "uint32", "message", "Sub"), MAP("mbd", "bool", "double"),
       MAP("mle", "int64", "enum"), MAP("mvt", "uint64", "message", "Ts"),
       F("st", "message", m="Struct"), F("va", "message", m="Value"), F("lv", "message", m="ListV"), F("rv", "message", "rep", m="Value"),
       F("hk", "message", "rep", m="Kv"), F("hh", "message", "rep", m="Hvo"), F("hi", "message", "rep", m="Kvi")]
MSGS = dict(
    Req=BIG, Resp=BIG,
    Sub=[F("n", "int64"), F("name", "string"), F("o", "int64", "opt"), F("sub", "message", m="Sub"), F("ts", "message", m="Ts"), F("l", "uint32", "rep")],
    Oth=[F("name", "string"), F("x", "int64")],
    Kv=[F("key", "string"), F("value", "string")], Kvi=[F("key", "string"), F("value", "int64")],
    Hvo=[F("header", "message", m="Kv"), F("append", "bool")],
    Ts=[F("seconds", "int64"), F("nanos", "int32")],
    Struct=[MAP("fields", "string", "message", "Value")],
    Value=[F("null_value", "null", on="kind"), F("number_value", "double", on="kind"), F("string_value", "string", on="kind"),
           F("bool_value", "bool", on="kind"), F("struct_value", "message", m="Struct", on="kind"), F("list_value", "message", m="ListV", on="kind")],
    ListV=[F("values", "message", "rep", m="Value")])


def full(m):
    return FULL.get(m, PKG + m)


# ---- the wire ----
def varint(n):
    n &= (1 << 64) - 1
    out = bytearray()
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    out.append(n)
    return bytes(out)


def tag(i, w, body):
    return varint(i << 3 | w) + (varint(len(body)) if w == 2 else b"") + body


def put(t, n):
    """(wire type, bytes) of a number, text or truth value."""
    if t in ("int32", "int64", "uint32", "uint64", "enum", "null"):
        return 0, varint(n)
    if t == "bool":
        return 0, varint(1 if n else 0)
    if t in ("sint32", "sint64"):
        return 0, varint(n << 1 ^ n >> 63)
    if t in ("fixed32", "sfixed32", "float", "fixed64", "sfixed64", "double"):
        f = dict(fixed32="<I", sfixed32="<i", float="<f", fixed64="<Q", sfixed64="<q", double="<d")[t]
        return 1 if t in ("fixed64", "sfixed64", "double") else 5, struct.pack(f, n)
    return 2, n.encode() if t == "string" else n


def raw(f_t, w):
    """The Python value of a scalar."""
    if w["k"] in ("int", "uint"):
        return int(w["n"][0])
    return dict(bool=lambda: w["b"], dbl=lambda: dbl(w["d"]), str=lambda: w["s"], bytes=lambda: w["s"].encode())[w["k"]]()


def enc_one(t, m, w):
    return (2, enc(m, w)) if t == "message" else put(t, raw(t, w))


def enc(m, w, packed=True):
    out = b""
    vals = dict((a, b) for a, b in w["f"])
    for i, f in enumerate(MSGS[m], 1):
        if f["n"] not in vals:
            continue
        v = vals[f["n"]]
        if f["c"] == "rep":
            if packed and f["t"] not in ("message", "string", "bytes"):
                if v["l"]:
                    out += tag(i, 2, b"".join(put(f["t"], raw(f["t"], x))[1] for x in v["l"]))
            else:
                out += b"".join(tag(i, *enc_one(f["t"], f["m"], x)) for x in v["l"])
        elif f["c"] == "map":
            for key, x in v["e"]:
                out += tag(i, 2, tag(1, *put(f["kt"], raw(f["kt"], key))) + tag(2, *enc_one(f["t"], f["m"], x)))
        else:
            out += tag(i, *enc_one(f["t"], f["m"], v))
    return out


class Bad(Exception):
    pass


def parts(b):
    i = 0

    def vi():
        nonlocal i
        n = s = 0
        while True:
            if i >= len(b) or s > 63:
                raise Bad("varint")
            c = b[i]
            i += 1
            n |= (c & 127) << s
            s += 7
            if c < 128:
                return n
    while i < len(b):
        k = vi()
        w = k & 7
        if w == 0:
            v = vi()
        elif w in (1, 5, 2):
            n = vi() if w == 2 else 8 if w == 1 else 4
            v = b[i:i + n]
            if len(v) < n:
                raise Bad("short")
            i += n
        else:
            raise Bad("wire type %d" % w)
        yield k >> 3, w, v


def signed(n, bits=64):
    n &= (1 << 64) - 1
    n = n - (1 << 64) if n >> 63 else n
    return n


def get(t, w, v):
    want, _ = put(t, "" if t == "string" else b"" if t == "bytes" else 0)
    if w != want:
        raise Bad("wire type of " + t)
    if t == "bool":
        return dict(k="bool", b=v != 0)
    if t in ("int32", "int64", "enum", "null"):
        return dict(k="int", n=num(signed(v)))
    if t in ("sint32", "sint64"):
        return dict(k="int", n=num(v >> 1 ^ -(v & 1)))
    if t in ("uint32", "uint64"):
        return dict(k="uint", n=num(v))
    if t == "string":
        return dict(k="str", s=v.decode("utf-8"))
    if t == "bytes":
        return dict(k="bytes", s=v.decode("utf-8"))
    f = dict(fixed32="<I", sfixed32="<i", float="<f", fixed64="<Q", sfixed64="<q", double="<d")[t]
    x = struct.unpack(f, v)[0]
    if t in ("float", "double"):
        return dict(k="dbl", d=dname(x))
    return dict(k="uint" if t.startswith("fixed") else "int", n=num(x))


def dec_one(f, w, v):
    if f["t"] == "message":
        if w != 2:
            raise Bad("wire type of a message")
        return dec(f["m"], v)
    return get(f["t"], w, v)


def dec(m, b):
    fs = MSGS[m]
    got = {}
    for i, w, v in parts(b):
        if not 1 <= i <= len(fs):
            raise Bad("field %d of %s" % (i, m))
        f = fs[i - 1]
        if f["c"] == "rep":
            l = got.setdefault(f["n"], dict(k="list", l=[]))["l"]
            if w == 2 and f["t"] not in ("message", "string", "bytes"):
                width = put(f["t"], 0)[0]
                if width == 0:
                    l += [get(f["t"], 0, x) for x in unpack(v)]
                else:
                    n = 8 if width == 1 else 4
                    l += [get(f["t"], width, v[k:k + n]) for k in range(0, len(v), n)]
            else:
                l.append(dec_one(f, w, v))
        elif f["c"] == "map":
            if w != 2:
                raise Bad("wire type of a map")
            ps = {a: (x, y) for a, x, y in parts(v)}
            zero = dict(bool=0, string=b"", message=b"").get
            width = put(f["kt"], "" if f["kt"] == "string" else 0)[0]
            key = get(f["kt"], *ps[1]) if 1 in ps else get(f["kt"], width, b"" if width == 2 else 0 if width == 0 else bytes(8 if width == 1 else 4))
            wv = 2 if f["t"] == "message" else put(f["t"], "" if f["t"] == "string" else 0)[0]
            val = dec_one(f, *ps[2]) if 2 in ps else dec_one(f, wv, b"" if wv == 2 else 0 if wv == 0 else bytes(8 if wv == 1 else 4))
            got.setdefault(f["n"], dict(k="map", e=[]))["e"].append([key, val])
        else:
            for g in fs:
                if f["on"] and g["on"] == f["on"] and g["n"] in got and g["n"] != f["n"]:
                    raise Bad("two of one alternative")
            got[f["n"]] = dec_one(f, w, v)
    for f in fs:
        if f["c"] == "map" and f["n"] in got:
            got[f["n"]]["e"].sort(key=order)
    return dict(k="msg", f=[[f["n"], got[f["n"]]] for f in fs if f["n"] in got])


def unpack(v):
    i, n, s = 0, 0, 0
    while i < len(v):
        n |= (v[i] & 127) << s
        s += 7
        if v[i] < 128:
            yield n
            n = s = 0
        i += 1


# ---- values ----
def order(e):
    return json.dumps(e[0], sort_keys=True)


def num(n):
    a = abs(n)
    return [str(n), 1 if n < 0 else 0, a >> 48 & 65535, a >> 32 & 65535, a >> 16 & 65535, a & 65535]


def dname(x):
    return "nan" if math.isnan(x) else repr(x)


def dbl(s):
    return float(s)


def f32(s):
    x = float(s)
    if math.isnan(x) or math.isinf(x):
        return "err"
    if abs(x) > 3.4028234663852886e38:
        return "err"
    return dname(struct.unpack("<f", struct.pack("<f", x))[0])


def I(n):
    return dict(k="int", n=num(n))


def U(n):
    return dict(k="uint", n=num(n))


def D(x):
    return dict(k="dbl", d=dname(float(x)))


def S(s):
    return dict(k="str", s=s)


def Y(s):
    return dict(k="bytes", s=s)


def B(b):
    return dict(k="bool", b=b)


def T(s, ns=0):
    return dict(k="ts", s=num(s), ns=num(ns))


NULL = dict(k="null")
IS = [0, 1, -1, 7, 2, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 4294967297, 1 << 53, 9223372036854775807, -9223372036854775808,
      65536, 128, -129]
US = [0, 1, 7, 2147483648, 4294967295, 4294967296, 4294967297, 1 << 53, 9223372036854775808, 18446744073709551615, 300]
DS = [0.0, 1.5, -2.25, 0.1, 1e300, -1e300, 3.4028234663852886e38, 3.5e38, 1e-50, 5.0, float("inf"), float("-inf"), float("nan"), 16777217.0]
SS = ["", "a", "é日😀", " ", "\t", " a ", "x y", "0", "true", "it's", "key"]
YS = ["", "ab", "é", "0"]
TSS = [(0, 0), (1704164645, 6), (1, 999999999), (-1, 0), (-5, 500000000), (253402300799, 0), (1704164645, 0), (0, 1000)]
BADTS = [(0, -1), (1, 1000000000), (1 << 62, 0), (-(1 << 62), 0), (0, 2147483647), (5, -2147483648)]


def scalar(t, rng, any_=False):
    if t in ("int32", "sint32", "sfixed32", "int64", "sint64", "sfixed64", "uint32", "fixed32", "uint64", "fixed64"):
        u = t.startswith(("uint", "fixed"))
        lo, hi = (0 if u else -(1 << (31 if "32" in t else 63))), (1 << ((32 if "32" in t else 64) - (0 if u else 1))) - 1
        v = rng.choice(US if u else IS)
        if rng.random() < .25:
            v = rng.randrange(lo, hi + 1)
        if not any_ and not lo <= v <= hi:
            v = rng.choice([lo, hi, 1])
        return U(v) if u else I(v)
    if t in ("enum", "null"):
        return I(0) if t == "null" else I(rng.choice([n for _, n in ENUM] if not any_ or rng.random() < .8 else [3, -2, 1 << 31, 4294967297]))
    if t in ("float", "double"):
        x = rng.choice(DS)
        if t == "float" and not any_:
            y = f32(dname(x))
            x = 1.5 if y == "err" else float(y)
        return D(x)
    if t == "string":
        return S(rng.choice(SS))
    if t == "bytes":
        return Y(rng.choice(YS))
    return B(rng.random() < .5)


def wire_one(f, rng, depth, bad):
    if f["t"] != "message":
        if f["t"] == "enum" and rng.random() < .1:
            return I(rng.choice([3, -2]))  # a reply may know values this side does not
        return scalar(f["t"], rng)
    if f["m"] == "Ts":
        s, ns = rng.choice(BADTS if bad and rng.random() < .3 else TSS)
        return wire_msg(dict(seconds=I(s), nanos=I(ns)), "Ts")
    return wire(f["m"], rng, depth - 1, bad)


def wire_msg(vals, m):
    fs = []
    for f in MSGS[m]:
        if f["n"] in vals:
            v = vals[f["n"]]
            pres = f["c"] == "opt" or f["on"] or (f["c"] == "one" and f["t"] == "message")
            if pres or v not in (I(0), U(0), D(0.0), S(""), Y(""), B(False), dict(k="list", l=[]), dict(k="map", e=[])):
                fs.append([f["n"], v])
    return dict(k="msg", f=fs)


def wire(m, rng, depth, bad=False, p=None):
    """A message as it may come over the wire, in canonical form."""
    vals = {}
    picked = {}
    if m == "Value":
        f = rng.choice(MSGS["Value"][:4 if depth <= 0 else 6])
        return dict(k="msg", f=[] if rng.random() < .07 else [[f["n"], wire_one(f, rng, depth, bad)]])
    for f in MSGS[m]:
        if rng.random() > (p if p is not None else .5) or (f["t"] == "message" and depth <= 0 and f["m"] != "Ts"):
            continue
        if f["on"]:
            if f["on"] in picked:
                continue
            picked[f["on"]] = 1
        if f["c"] == "rep":
            vals[f["n"]] = dict(k="list", l=[wire_one(f, rng, depth, bad) for _ in range(rng.randrange(4))])
        elif f["c"] == "map":
            es = {}
            for _ in range(rng.randrange(4)):
                key = scalar(f["kt"], rng)
                es[json.dumps(key)] = [key, wire_one(f, rng, depth, bad)]
            vals[f["n"]] = dict(k="map", e=sorted(es.values(), key=order))
        else:
            vals[f["n"]] = wire_one(f, rng, depth, bad)
    return wire_msg(vals, m)


# ---- expressions ----
def lit(v):
    return dict(x="lit", v=v)


def sel(a, n):
    return dict(x="sel", a=a, n=n)


def has(a, n):
    return dict(x="has", a=a, n=n)


def at(a, b):
    return dict(x="at", a=a, b=lit(b))


def lst(l):
    return dict(x="list", l=l)


def mp(es):
    return dict(x="map", e=sorted(es, key=order))


def new(t, **f):
    return dict(x="new", t=t, f=[[a, b] for a, b in f.items()])


VAR = dict(x="d")


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") + "'"


def cel_val(v):
    k = v["k"]
    if k == "int":
        return "(%s)" % v["n"][0] if v["n"][1] else v["n"][0]
    if k == "uint":
        return v["n"][0] + "u"
    if k == "dbl":
        if v["d"] in ("nan", "inf", "-inf"):
            return "double('%s')" % dict(nan="NaN", inf="inf").get(v["d"], v["d"])
        return "(%s)" % v["d"] if "e" not in v["d"] and "." in v["d"] else "double('%s')" % v["d"]
    if k == "str":
        return q(v["s"])
    if k == "bytes":
        return "bytes(%s)" % q(v["s"])
    if k == "bool":
        return "true" if v["b"] else "false"
    if k == "null":
        return "null"
    if k == "ts":
        s, ns = int(v["s"][0]), int(v["ns"][0])
        import datetime
        t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=s)
        return "timestamp('%s.%09dZ')" % (t.strftime("%Y-%m-%dT%H:%M:%S").zfill(19), ns)
    if k == "list":
        return "[%s]" % ", ".join(map(cel_val, v["l"]))
    if k == "map":
        return "{%s}" % ", ".join("%s: %s" % (cel_val(a), cel_val(b)) for a, b in v["e"])
    raise ValueError(k)


def cel(x):
    k = x["x"]
    if k == "lit":
        return cel_val(x["v"])
    if k == "d":
        return "d"
    if k == "sel":
        return "%s.%s" % (cel(x["a"]), x["n"])
    if k == "has":
        return "has(%s.%s)" % (cel(x["a"]), x["n"])
    if k == "at":
        return "%s[%s]" % (cel(x["a"]), cel(x["b"]))
    if k == "list":
        return "[%s]" % ", ".join(map(cel, x["l"]))
    if k == "map":
        return "{%s}" % ", ".join("%s: %s" % (cel_val(a), cel(b)) for a, b in x["e"])
    return "%s { %s }" % (full(x["t"]), ", ".join("%s: %s" % (a, cel(b)) for a, b in x["f"]))


POOL = ([I(n) for n in IS] + [U(n) for n in US] + [D(x) for x in DS] + [S(s) for s in SS[:6]] + [Y(s) for s in YS[:3]] + [B(True), B(False), NULL]
        + [T(*t) for t in TSS])


def plain(rng, depth):
    """An expression of some value of no declared type."""
    r = rng.random()
    if depth <= 0 or r < .6:
        return lit(rng.choice(POOL))
    if r < .8:
        return lst([plain(rng, depth - 1) for _ in range(rng.randrange(3))])
    ks = {json.dumps(v): v for v in rng.choices([S("k"), S("é"), S(""), S("fields")] if rng.random() < .8 else [I(1), U(2), B(True)], k=rng.randrange(3))}
    return mp([[v, plain(rng, depth - 1)] for v in ks.values()])


def good_one(f, rng, depth, any_):
    if any_ and rng.random() < .12:
        return plain(rng, 1)
    if f["t"] != "message":
        return lit(scalar(f["t"], rng, any_ and rng.random() < .5))
    if f["m"] == "Ts":
        return lit(T(*rng.choice(TSS)))
    if any_ and rng.random() < .1:
        return new("Oth", name=lit(S("o")), **({"x": lit(I(1))} if rng.random() < .5 else {}))
    return build(f["m"], rng, depth - 1, any_)


def build(m, rng, depth, any_=False, p=.3, tests=None):
    """An expression that builds a message from literals; any_: perhaps of values that do not fit."""
    fs = {}
    picked = set()
    for f in MSGS[m]:
        if (f["t"] == "message" and depth <= 0 and f["m"] != "Ts") or (rng.random() > p if m != "Value" else False):
            continue
        if f["on"]:
            if f["on"] in picked and not (any_ and rng.random() < .1):
                continue
            if m == "Value" and rng.random() > .3:
                continue
            picked.add(f["on"])
        if f["c"] == "rep":
            fs[f["n"]] = lst([good_one(f, rng, depth, any_) for _ in range(rng.randrange(3))]) if not any_ or rng.random() < .95 else plain(rng, 1)
        elif f["c"] == "map":
            ks = {}
            for _ in range(rng.randrange(3)):
                key = scalar(f["kt"], rng, any_ and rng.random() < .3) if not any_ or rng.random() < .9 else rng.choice([S("k"), I(1), U(1), B(True)])
                ks[json.dumps(key)] = key
            fs[f["n"]] = mp([[key, good_one(f, rng, depth, any_)] for key in ks.values()])
        else:
            fs[f["n"]] = good_one(f, rng, depth, any_)
    return new(m, **fs)


def moved(rng, p):
    """A message of what the reply holds."""
    fs = {}
    for f in BIG:
        if rng.random() > p or f["m"] in ("Struct", "Value", "ListV"):
            continue
        fs[f["n"]] = sel(VAR, f["n"])
    if rng.random() < .3:
        a, b = rng.choice([("i32", "i64"), ("i64", "i32"), ("u32", "u64"), ("u64", "y32"), ("s", "os"), ("e", "i64"), ("oe", "e"), ("f", "d"), ("d", "f"),
                           ("oi", "s64"), ("pb", "i64"), ("rd", "rf"), ("ru", "ru"), ("pc", "sub"), ("sub", "pc"), ("ri", "re"), ("b", "ob"), ("by", "s")])
        fs = {b: sel(VAR, a)}
    return new("Req", **fs)


def path(rng):
    """Some value inside the reply."""
    r = rng.random()
    d = VAR
    if r < .3:
        return sel(d, rng.choice(BIG)["n"])
    if r < .45:
        return has(d, rng.choice(BIG)["n"])
    if r < .6:
        x = sel(d, rng.choice(["sub", "pc"]))
        while rng.random() < .3:
            x = sel(x, "sub")
        return (has if rng.random() < .4 else sel)(x, rng.choice(["n", "name", "o", "sub", "ts", "l"]))
    if r < .75:
        f = rng.choice([f for f in BIG if f["c"] == "map"])
        return at(sel(d, f["n"]), scalar(f["kt"], rng))
    if r < .85:
        return at(sel(d, rng.choice([f["n"] for f in BIG if f["c"] == "rep"])), I(rng.randrange(3)))
    x = sel(d, rng.choice(["st", "va", "lv"]))
    return x if rng.random() < .4 else (sel(x, rng.choice(SS[1:2])) if rng.random() < .5 else at(x, I(0)))


def some(rng):
    """A value to store: what can be exported, mostly."""
    r = rng.random()
    if r < .5:
        return path(rng)
    if r < .6:
        return lst([path(rng) for _ in range(rng.randrange(1, 3))])
    if r < .7:
        return mp([[S("k"), path(rng)], [S("l"), plain(rng, 1)]])
    return plain(rng, 2)


def pairs(rng):
    r = rng.random()
    if r < .35:
        return sel(VAR, rng.choice(["hk", "hh", "hi", "rm", "rs"]))
    out = []
    for i in range(rng.randrange(3)):
        s = rng.random()
        n = lit(S("x-h%d" % i))
        out.append(lst([n, lit(S("v%d" % i))]) if s < .35 else lst([n, path(rng)]) if s < .5 else new("Kv", key=n, value=lit(S("w"))) if s < .65
                   else new("Hvo", header=new("Kv", key=n, value=lit(S("w")))) if s < .8
                   else rng.choice([new("Kvi", key=n, value=lit(I(1))), new("Kv", key=n), lst([n]), lst([n, lit(S("a")), lit(S("b"))]), lit(S("x")),
                                    new("Hvo", append=lit(B(True))), lst([n, lit(I(3))])]))
    return lst(out)


def reply(rng):
    f = {}
    if rng.random() < .9:
        f["status"] = lit(U(rng.choice([200, 403, 429, 0, 999, 4294967295]))) if rng.random() < .6 else rng.choice(
            [lit(U(4294967296)), lit(U(4294967297)), lit(U(18446744073709551615)), sel(VAR, "u32"), sel(VAR, "u64"), lit(I(403)), lit(U(4294967296 + 403))])
    if rng.random() < .7:
        f["body"] = rng.choice([lit(S("no")), lit(S("")), sel(VAR, "s"), sel(VAR, "os"), lit(I(5))])
    if rng.random() < .7:
        f["headers"] = pairs(rng)
    return [[a, b] for a, b in f.items()]


def header_names(w):
    """Header fields of a reply get names of their own."""
    k = 0
    for n, v in w["f"]:
        if n in ("hk", "hh", "hi"):
            for x in v["l"]:
                kv = x if n != "hh" else next((b for a, b in x["f"] if a == "header"), dict(f=[]))
                kv["f"] = [["key", S("x-r%d" % k)]] + [[a, b] for a, b in kv["f"] if a != "key"]
                k += 1
    return w


def case(rng, kind):
    c = dict(m=new("Req"), rep=dict(k="msg", f=[]), second=new("Req"), store=lit(S("x")), hdr=lst([]), deny=rng.random() < .5, answers=False, reply=[], form="")
    if kind == "request":
        c["m"] = build("Req", rng, 3, rng.random() < .5, rng.choice([.05, .1, .3]))
        if rng.random() < .04:
            c["m"] = rng.choice([plain(rng, 1), build("Sub", rng, 2), build("Resp", rng, 1, p=.1), new("Oth", name=lit(S("o")))])
    else:
        c["rep"] = header_names(wire("Resp", rng, 3, rng.random() < .15, rng.choice([.1, .4, .8])))
        c["second"] = moved(rng, rng.choice([.05, .3])) if rng.random() < .8 else build("Req", rng, 2, True, .05)
        c["store"] = some(rng)
        c["hdr"] = pairs(rng)
        c["answers"] = rng.random() < .5
        c["reply"] = reply(rng) if c["answers"] else []
        c["form"] = rng.choice(["", "", "", "unpacked", "garbage", "short"])
        if c["form"] in ("garbage", "short"):
            if rng.random() < .5:
                c["form"] = ""
    return c


def every():
    """Each kind of field with each value of the pool, alone, in a list and as the value of a map."""
    out = []
    base = dict(rep=dict(k="msg", f=[]), second=new("Req"), store=lit(S("x")), hdr=lst([]), answers=False, reply=[], form="")
    n = 0
    extra = [new("Sub", n=lit(I(1))), new("Oth", name=lit(S("o"))), new("Ts", seconds=lit(I(1))), new("Struct"), new("Value"), new("Kv"),
             lst([]), mp([]), mp([[S("k"), lit(I(1))]])]
    for f in BIG:
        for v in [lit(v) for v in POOL] + extra:
            n += 1
            if f["c"] == "rep":
                v = lst([v])
            elif f["c"] == "map":
                key = {"string": S("k"), "int32": I(1), "int64": I(1), "uint32": U(1), "uint64": U(1), "bool": B(True)}[f["kt"]]
                v = mp([[key, v]])
            out.append(dict(base, m=new("Req", **{f["n"]: v}), deny=n % 2 == 0))
        if f["c"] == "map":
            for key in POOL:
                if key["k"] in ("int", "uint", "bool", "str"):
                    good = new("Sub") if f["m"] == "Sub" else lit(T(1)) if f["m"] == "Ts" else lit({"int32": I(1), "string": S("a"), "double": D(1.5), "enum": I(1)}[f["t"]])
                    out.append(dict(base, m=new("Req", **{f["n"]: mp([[key, good]])}), deny=len(out) % 2 == 0))
    # each field of a reply, alone with one value, moved on and stored
    rng = random.Random(7)
    for f in BIG:
        for j in range(14):
            w = wire_msg({f["n"]: dict(k="list", l=[wire_one(f, rng, 2, True) for _ in range(j % 3)]) if f["c"] == "rep" else
                          dict(k="map", e=[[scalar(f["kt"], rng), wire_one(f, rng, 2, True)]]) if f["c"] == "map" else wire_one(f, rng, 2, True)}, "Resp")
            second = new("Req", **{f["n"]: sel(VAR, f["n"])}) if j % 2 else new("Req", b=has(VAR, f["n"]))
            out.append(dict(base, m=new("Req"), rep=w, second=second, store=sel(VAR, f["n"]), deny=j % 2 == 0))
    return out


# ---- running ----
def field_desc(i, f, m):
    lab = 3 if f["c"] in ("rep", "map") else 1
    tn = "." + full(f["m"]) if f["t"] == "message" and f["c"] != "map" else "." + (PKG + "E") if f["t"] == "enum" else ".google.protobuf.NullValue" if f["t"] == "null" else ""
    t = 11 if f["c"] == "map" else TYPE[f["t"]]
    if f["c"] == "map":
        tn = ".%s.%s" % (full(m), entry(f))
    b = tag(1, 2, f["n"].encode()) + tag(3, 0, varint(i)) + tag(4, 0, varint(lab)) + tag(5, 0, varint(t))
    if tn:
        b += tag(6, 2, tn.encode())
    ones = oneofs(m)
    if f["on"]:
        b += tag(9, 0, varint(ones.index(f["on"])))
    if f["c"] == "opt":
        b += tag(9, 0, varint(ones.index("_" + f["n"]))) + tag(17, 0, varint(1))
    return b + tag(10, 2, re.sub(r"_(\w)", lambda x: x.group(1).upper(), f["n"]).encode())


def entry(f):
    return "".join(x[:1].upper() + x[1:] for x in f["n"].split("_")) + "Entry"


def oneofs(m):
    real = []
    for f in MSGS[m]:
        if f["on"] and f["on"] not in real:
            real.append(f["on"])
    return real + ["_" + f["n"] for f in MSGS[m] if f["c"] == "opt"]


def msg_desc(m):
    b = tag(1, 2, full(m).rsplit(".", 1)[1].encode())
    for i, f in enumerate(MSGS[m], 1):
        b += tag(2, 2, field_desc(i, f, m))
    for f in MSGS[m]:
        if f["c"] == "map":
            val = dict(f, n="value", c="one")
            key = F("key", f["kt"])
            e = tag(1, 2, entry(f).encode()) + tag(2, 2, field_desc(1, key, "Oth")) + tag(2, 2, field_desc(2, dict(val, on=""), "Oth"))
            b += tag(3, 2, e + tag(7, 2, tag(7, 0, varint(1))))
    for o in oneofs(m):
        b += tag(8, 2, tag(1, 2, o.encode()))
    return b


def enum_desc(name, vals):
    return tag(1, 2, name.encode()) + b"".join(tag(2, 2, tag(1, 2, n.encode()) + tag(2, 0, varint(v))) for n, v in vals)


def file_desc(name, pkg, msgs, enums, deps=(), svc=b""):
    b = tag(1, 2, name.encode()) + tag(2, 2, pkg.encode()) + b"".join(tag(3, 2, d.encode()) for d in deps)
    b += b"".join(tag(4, 2, msg_desc(m)) for m in msgs) + b"".join(tag(5, 2, enum_desc(*e)) for e in enums)
    return b + svc + tag(12, 2, b"proto3")


def fds():
    svc = tag(6, 2, tag(1, 2, b"Svc") + tag(2, 2, tag(1, 2, b"M") + tag(2, 2, b".conv.v1.Req") + tag(3, 2, b".conv.v1.Resp")))
    files = [file_desc("google/protobuf/timestamp.proto", "google.protobuf", ["Ts"], []),
             file_desc("google/protobuf/struct.proto", "google.protobuf", ["Struct", "Value", "ListV"], [("NullValue", [("NULL_VALUE", 0)])]),
             file_desc("conv.proto", "conv.v1", ["Req", "Resp", "Sub", "Oth", "Kv", "Kvi", "Hvo"], [("E", ENUM)],
                       ["google/protobuf/timestamp.proto", "google/protobuf/struct.proto"], svc)]
    return b"".join(tag(1, 2, f) for f in files).hex()


def aset(i, c):
    base = dict(predicate="true", terminal=False)
    kids = [dict(base, type="grpc", isGuard=False, var="d2", service="second", messageBuilder=cel(c["second"]), onReply=[]),
            dict(base, type="store", path="st", exportToHost=True, value=cel(c["store"])),
            dict(base, type="headers", target="request", headers=cel(c["hdr"]))]
    if c["answers"]:
        kids.append(dict(type="deny", predicate="true", terminal=True, denyWith="DenyResponse { %s }" % ", ".join("%s: %s" % (a, cel(b)) for a, b in c["reply"])))
    act = dict(base, type="grpc", isGuard=False, execution="sequential", var="d", service="closed" if c["deny"] else "open", messageBuilder=cel(c["m"]), onReply=kids)
    return dict(name="s%d" % i, routeRuleConditions=dict(hostnames=["c%d.x" % i]), actions=[act])


FDS = fds()


def scenario(cs, i):
    svc = dict(type="dynamic", endpoint="cl-a", grpcService="conv.v1.Svc", grpcMethod="M", timeout="1s")
    cfg = dict(descriptorService="ds", services=dict(closed=dict(svc, failureMode="deny"), open=dict(svc, failureMode="allow"),
                                                    second=dict(svc, endpoint="cl-b", failureMode="allow")),
               actionSets=[aset(k, c) for k, c in enumerate(cs)])
    steps = [dict(ev="configure", config=cfg),
             dict(ev="root_grpc", nth=0, force=True, json=dict(descriptors=[dict(cluster=cl, service="conv.v1.Svc", fds=dict(hex=FDS)) for cl in ("cl-a", "cl-b")]))]
    for k, c in enumerate(cs):
        h = "c%d.x" % k
        steps.append(dict(ev="ctx_new", ctx=2 + k))
        steps.append(dict(ev="req_headers", ctx=2 + k, eos=True, headers=[[":method", "GET"], [":path", "/"], [":authority", h]], props=[[["request", "host"], h]]))
        b = enc("Resp", c["rep"], packed=c["form"] != "unpacked") if c["rep"]["k"] == "msg" else b""
        if c["form"] == "garbage":
            b = b"\x0a\x05\xff"
        elif c["form"] == "short":
            b = b + b"\x92\x01"
        elif not b:
            b = b"\xa0\x3f\x01"  # a field the schema does not know, so that there is a reply at all
        steps.append(dict(ev="grpc", ctx=2 + k, nth=0, raw=b.hex()))
        steps.append(dict(ev="ctx_drop", ctx=2 + k))
    return dict(id=str(i), log_level=4, steps=steps)


def try_dec(m, b):
    try:
        return dec(m, b)
    except (Bad, UnicodeDecodeError, KeyError, IndexError, struct.error, TypeError, AttributeError):
        return dict(k="err")


def read(obs, k):
    a, b = obs[3 + 4 * k], obs[4 + 4 * k]
    e = dict(k="err")
    g = dict(sent=e, second=e, exp=dict(there=False, v=e, s=e), hs=[], answer=dict(status="none", body="", hs=[]))
    if a.get("panicked") or b.get("panicked"):
        g["answer"] = dict(status="panic", body="", hs=[])
        return g
    for o in (a, b):
        for c in o.get("calls", []):
            who = "sent" if c["cluster"] == "cl-a" else "second"
            if g[who]["k"] != "err" or c["fail"]:
                g["hs"].append(["extra call", who])
            g[who] = try_dec("Req", bytes.fromhex(c["msg"]["hex"]))
            if g[who]["k"] == "err":
                g[who] = dict(k="undecodable")
        for p in o.get("props", []):
            x = bytes.fromhex(p[3])
            if p[0] != ["kuadrant.st"] or g["exp"]["there"]:
                g["hs"].append(["extra value", str(p[0])])
            g["exp"] = dict(there=True, v=try_dec("Value", x), s=try_dec("Struct", x))
        for which, hs in o.get("hdr_sets", []):
            g["hs"] += [h for h in hs if not h[0].startswith(":")] if which == "req" else [["response", ""]]
        for r in o.get("reply", []):
            hs = r.get("headers") or []
            g["answer"] = dict(status=str(r["status"]) if g["answer"]["status"] == "none" else "twice", body=r.get("body") or "", hs=hs)
    return g


def ask(cs, wd, cov, name):
    """Put the cases to the code and check what it made of them against the specification."""
    groups = [cs[k:k + PER] for k in range(0, len(cs), PER)]

    def run(gs, tag):
        scs = [scenario(g, k) for k, g in enumerate(gs)]
        return scs, [None if o.get("fatal") or o["obs"][0]["ret"] is not True else [read(o["obs"], k) for k in range(len(g))]
                     for g, o in zip(gs, vlib.run_scenarios(scs, wd, name + tag))]
    scs, res = run(groups, "")
    lost = [k for k, r in enumerate(res) if r is None]
    ones = [c for k in lost for c in groups[k]]
    oscs, ores = run([[c] for c in ones], "1") if ones else ([], [])
    batch, steps, n = [], [], 0
    for k, g in enumerate(groups):
        for j, c in enumerate(g):
            if res[k] is None:
                got, sc = ores[n], oscs[n]
                got = got[0] if got else dict(read([{}] * 5, 0), answer=dict(status="dead", body="", hs=[]))
                st = sc["steps"]
                n += 1
            else:
                got, st = res[k][j], scs[k]["steps"]
            batch.append(dict({x: c[x] for x in ("m", "second", "store", "hdr", "deny", "answers", "reply")},
                              rep=dict(k="err") if c["form"] in ("garbage", "short") else c["rep"], got=got))
            steps.append((st, j if res[k] is not None else 0))
    out = validate(batch, wd, name)
    cov["traces_validated_against_impl"] += len(batch)
    cov["states"] += len(batch)
    if len(cov["samples"]) < 4:
        cov["samples"].append(dict(kind=name, trace=batch[len(batch) // 3]))
    bad = []
    for m in MM.finditer(out):
        i = int(m.group(1)) - 1
        part = m.group(3)
        st, j = steps[i]
        bad.append(dict(what=part, step=4 + 4 * j, case={x: cel(cs[i][x]) for x in ("m", "second", "store", "hdr")}, reply=cs[i]["reply"], rep=cs[i]["rep"],
                        spec=vlib.unquote(m.group(4)), code=batch[i]["got"][part], steps=st[:2] + st[2 + 4 * j:6 + 4 * j]))
    return sorted(bad, key=lambda b: len(json.dumps(b["case"]) + json.dumps(b["rep"])))


def texts(x, ds, ns):
    """The numbers a case may have to convert."""
    if isinstance(x, dict):
        if "d" in x:
            ds.add(x["d"])
        if "n" in x and isinstance(x["n"], list):
            ns.add(x["n"][0])
        for y in x.values():
            texts(y, ds, ns)
    elif isinstance(x, list):
        for y in x:
            texts(y, ds, ns)


def validate(batch, wd, name, module="ConvertTrace", env={}):
    ds, ns = {"0.0"}, {"0"}
    texts(batch, ds, ns)
    f = os.path.join(wd, name + ".json")
    json.dump(dict(cases=batch, f32={d: f32(d) for d in ds}, dbl={n: dname(float(int(n))) for n in ns}), open(f, "w"))
    rc, out = vlib.tlc(module, wd, env=dict(TRACE_FILE=f, **env))
    if rc != 0:
        raise vlib.ToolError("TLC: " + out[-3000:])
    return out


def model(r, wd, cov, n):
    vals = POOL + [dict(k="struct", t="Sub", f=[["n", I(5)], ["o", I(0)]]), dict(k="struct", t="Sub", f=[]), dict(k="struct", t="Oth", f=[["name", S("o")]]),
                   dict(k="struct", t="Ts", f=[["seconds", I(5)]]), dict(k="struct", t="Struct", f=[]), dict(k="struct", t="Value", f=[["bool_value", B(False)]]),
                   dict(k="struct", t="Kv", f=[["key", S("k")]]), dict(k="list", l=[I(1), NULL]), dict(k="map", e=[[S("k"), Y("b")]])]
    msgs = [wire("Resp", r, 2, j % 5 == 0, .15 if j % 2 else .5) for j in range(n)]
    cs = [case(r, "reply" if j % 2 else "request") for j in range(n)]
    for j, c in enumerate(cs):
        if j % 9 == 0:
            c["rep"] = dict(k="err")
    keys = [v for v in POOL if v["k"] in ("int", "uint", "bool", "str")]
    ds, ns = {"0.0"}, {"0"}
    texts([vals, msgs, cs, keys], ds, ns)
    f = os.path.join(wd, "mc.json")
    json.dump(dict(pool=vals, keys=keys, msgs=msgs, cases=cs, f32={d: f32(d) for d in ds}, dbl={n: dname(float(int(n))) for n in ns}), open(f, "w"))
    rc, out = vlib.tlc("ConvertMC", wd, env=dict(TRACE_FILE=f))
    g, d = vlib.tlc_counts(out)
    cov["states"] += d
    cov["transitions"] += g
    if rc in (12, 13):
        return [dict(what="the property fails in the model of the code", spec=out[-5000:], step=0)]
    if rc != 0:
        raise vlib.ToolError("TLC: " + out[-3000:])
    return []


def part(requests, n_mc=(150, 1500), n_rnd=(4000, 80000)):
    def run_(prop, tier, seed, cov):
        i = 0 if tier == "quick" else 1
        wd = vlib.workdir("convert-" + prop)
        r = random.Random("convert-%s-%d" % (prop, seed))
        bad = model(r, wd, cov, n_mc[i])
        if bad:
            return bad, []
        bad = ask(every(), wd, cov, "every")
        for a in range(0, n_rnd[i], 4000):
            bad += ask([case(r, "request" if r.random() < requests else "reply") for _ in range(min(4000, n_rnd[i] - a))], wd, cov, "random")
        return bad, []
    return run_
