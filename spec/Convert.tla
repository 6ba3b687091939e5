------------------------------- MODULE Convert ---------------------------------
(* How values cross the borders of an expression: into the message of a call, *)
(* out of the message of a reply, into a stored attribute, into header pairs  *)
(* and into the answer to the client. The rule throughout: what arrives is    *)
(* what was given, or nothing arrives and the action has failed.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* A number is <<its decimal text, 1 if negative, four digits to the base 2^16>>. *)
Zero == <<"0", 0, 0, 0, 0, 0>>
ERR == [k |-> "err"]
I32(n) == /\ n[3] = 0 /\ n[4] = 0
          /\ n[5] < 32768 \/ (n[2] = 1 /\ n[5] = 32768 /\ n[6] = 0)
U32(n) == n[3] = 0 /\ n[4] = 0

(* The fields of a message: name, type, message type, cardinality (one, opt, rep, map), *)
(* type of the keys of a map, oneof it belongs to.                                       *)
Fd(n, t, m, c, kt, on) == [n |-> n, t |-> t, m |-> m, c |-> c, kt |-> kt, on |-> on]
F(n, t) == Fd(n, t, "", "one", "", "")
M(n, m) == Fd(n, "msg", m, "one", "", "")
R(n, t) == Fd(n, t, "", "rep", "", "")
RM(n, m) == Fd(n, "msg", m, "rep", "", "")
O(n, t) == Fd(n, t, "", "opt", "", "")
MP(n, kt, t, m) == Fd(n, t, m, "map", kt, "")
P(n, t, m, on) == Fd(n, t, m, "one", "", on)
Big == << F("b", "bool"), F("i32", "i32"), F("s32", "i32"), F("x32", "i32"), F("i64", "i64"), F("s64", "i64"), F("x64", "i64"),
          F("u32", "u32"), F("y32", "u32"), F("u64", "u64"), F("y64", "u64"), F("f", "f32"), F("d", "f64"),
          F("s", "str"), F("by", "bytes"), F("e", "enum"), M("ts", "Ts"), M("sub", "Sub"),
          P("pa", "str", "", "pick"), P("pb", "i64", "", "pick"), P("pc", "msg", "Sub", "pick"),
          O("oi", "i32"), O("os", "str"), O("ob", "bool"), O("oe", "enum"),
          R("rb", "bool"), R("ri", "i32"), R("ru", "u64"), R("rs", "str"), R("re", "enum"), R("rf", "f32"), R("rd", "f64"), R("ry", "bytes"),
          RM("rt", "Ts"), RM("rm", "Sub"),
          MP("msi", "str", "i32", ""), MP("mis", "i32", "str", ""), MP("mum", "u32", "msg", "Sub"), MP("mbd", "bool", "f64", ""),
          MP("mle", "i64", "enum", ""), MP("mvt", "u64", "msg", "Ts"),
          M("st", "Struct"), M("va", "Value"), M("lv", "ListV"), RM("rv", "Value"), RM("hk", "Kv"), RM("hh", "Hvo"), RM("hi", "Kvi") >>
Msgs == [ Req |-> Big, Resp |-> Big,
          Sub |-> << F("n", "i64"), F("name", "str"), O("o", "i64"), M("sub", "Sub"), M("ts", "Ts"), R("l", "u32") >>,
          Oth |-> << F("name", "str"), F("x", "i64") >>,
          Kv |-> << F("key", "str"), F("value", "str") >>, Kvi |-> << F("key", "str"), F("value", "i64") >>,
          Hvo |-> << M("header", "Kv"), F("append", "bool") >>,
          Ts |-> << F("seconds", "i64"), F("nanos", "i32") >>,
          Struct |-> << MP("fields", "str", "msg", "Value") >>,
          Value |-> << P("null_value", "null", "", "kind"), P("number_value", "f64", "", "kind"), P("string_value", "str", "", "kind"),
                       P("bool_value", "bool", "", "kind"), P("struct_value", "msg", "Struct", "kind"), P("list_value", "msg", "ListV", "kind") >>,
          ListV |-> << RM("values", "Value") >> ]
Enum == { "0", "1", "7", "-1", "2147483647" }
Presence(f) == f.c = "opt" \/ f.on # "" \/ (f.c = "one" /\ f.t = "msg")

Get(s, n) == LET i == { j \in DOMAIN s : s[j][1] = n } IN IF i = {} THEN ERR ELSE s[CHOOSE j \in i : TRUE][2]
Has(s, n) == \E j \in DOMAIN s : s[j][1] = n
AnyErr(s) == \E i \in DOMAIN s : s[i].k = "err"

(* ------------------------------------------------------------------------ *)
(* Into a message. What is on the wire: fields without presence that have    *)
(* their default value are not.                                              *)
CONSTANTS F32(_), DblOf(_)   \* the single precision number nearest to one ("err": none), the number nearest to an integer
Default(f) == CASE f.c = "rep" -> [k |-> "list", l |-> <<>>]
                [] f.c = "map" -> [k |-> "map", e |-> <<>>]
                [] f.t = "bool" -> [k |-> "bool", b |-> FALSE]
                [] f.t \in {"i32", "i64", "enum", "null"} -> [k |-> "int", n |-> Zero]
                [] f.t \in {"u32", "u64"} -> [k |-> "uint", n |-> Zero]
                [] f.t \in {"f32", "f64"} -> [k |-> "dbl", d |-> "0.0"]
                [] f.t = "str" -> [k |-> "str", s |-> ""]
                [] f.t = "bytes" -> [k |-> "bytes", s |-> ""]

KeyOk(kt, key) == CASE kt = "str" -> key.k = "str"
                    [] kt = "bool" -> key.k = "bool"
                    [] kt = "i32" -> key.k = "int" /\ I32(key.n)
                    [] kt = "i64" -> key.k = "int"
                    [] kt = "u32" -> key.k = "uint" /\ U32(key.n)
                    [] kt = "u64" -> key.k = "uint"

RECURSIVE ToField(_, _), ToOne(_, _), ToMsg(_, _)
ToOne(f, v) ==
    CASE f.t = "bool" -> IF v.k = "bool" THEN v ELSE ERR
      [] f.t = "i32" -> IF v.k = "int" /\ I32(v.n) THEN v ELSE ERR
      [] f.t = "i64" -> IF v.k = "int" THEN v ELSE ERR
      [] f.t = "u32" -> IF v.k = "uint" /\ U32(v.n) THEN v ELSE ERR
      [] f.t = "u64" -> IF v.k = "uint" THEN v ELSE ERR
      [] f.t = "f32" -> IF v.k = "dbl" /\ F32(v.d) # "err" THEN [k |-> "dbl", d |-> F32(v.d)] ELSE ERR
      [] f.t = "f64" -> IF v.k = "dbl" THEN v ELSE ERR
      [] f.t = "str" -> IF v.k = "str" THEN v ELSE ERR
      [] f.t = "bytes" -> IF v.k = "bytes" THEN v ELSE ERR
      [] f.t = "enum" -> IF v.k = "int" /\ v.n[1] \in Enum THEN v ELSE ERR
      [] f.t = "null" -> IF v.k = "int" /\ v.n = Zero THEN v ELSE ERR
      [] f.t = "msg" -> IF v.k = "ts" /\ f.m = "Ts"
                        THEN [k |-> "msg", f |-> (IF v.s = Zero THEN <<>> ELSE << <<"seconds", [k |-> "int", n |-> v.s]>> >>)
                                                 \o (IF v.ns = Zero THEN <<>> ELSE << <<"nanos", [k |-> "int", n |-> v.ns]>> >>)]
                        ELSE ToMsg(f.m, v)
ToField(f, v) ==
    CASE f.c = "rep" -> IF v.k # "list" THEN ERR
                        ELSE LET l == TLCEval([i \in DOMAIN v.l |-> ToOne(f, v.l[i])]) IN IF AnyErr(l) THEN ERR ELSE [k |-> "list", l |-> l]
      [] f.c = "map" -> IF v.k # "map" THEN ERR
                        ELSE LET l == TLCEval([i \in DOMAIN v.e |-> ToOne(f, v.e[i][2])]) IN
                             IF AnyErr(l) \/ (\E i \in DOMAIN v.e : ~KeyOk(f.kt, v.e[i][1])) THEN ERR
                             ELSE [k |-> "map", e |-> [i \in DOMAIN v.e |-> <<v.e[i][1], l[i]>>]]
      [] OTHER -> ToOne(f, v)
\* a struct of another type is no such message, and one of several alternatives can be there
ToMsg(m, v) ==
    IF v.k # "struct" \/ (v.k = "struct" /\ v.t # m) THEN ERR
    ELSE LET fs == SelectSeq(Msgs[m], LAMBDA f : Has(v.f, f.n))
             ws == TLCEval([i \in DOMAIN fs |-> ToField(fs[i], Get(v.f, fs[i].n))])
             twice == \E i, j \in DOMAIN fs : i # j /\ fs[i].on # "" /\ fs[i].on = fs[j].on IN
         IF AnyErr(ws) \/ twice THEN ERR
         ELSE LET all == TLCEval([i \in DOMAIN fs |-> <<fs[i].n, ws[i]>>])
                  keep == { i \in DOMAIN fs : Presence(fs[i]) \/ ws[i] # Default(fs[i]) } IN
              [k |-> "msg", f |-> LET RECURSIVE Kept(_)
                                      Kept(i) == IF i > Len(all) THEN <<>> ELSE (IF i \in keep THEN <<all[i]>> ELSE <<>>) \o Kept(i + 1)
                                  IN Kept(1)]

(* ------------------------------------------------------------------------ *)
(* Out of a message: an absent field is absent if its presence shows on the  *)
(* wire, and has its default value otherwise.                                *)
RECURSIVE FromField(_, _), FromOne(_, _), FromMsg(_, _)
TsOk(s, ns) == /\ s[3] = 0 /\ s[4] < 1024   \* within what dates can be written
               /\ ns[2] = 0 /\ ns[3] = 0 /\ ns[4] = 0 /\ (ns[5] < 15258 \/ (ns[5] = 15258 /\ ns[6] < 51712))  \* below 10^9
NumOr0(w, n) == IF Has(w.f, n) THEN Get(w.f, n).n ELSE Zero
FromOne(f, w) ==
    IF f.t # "msg" THEN w
    ELSE CASE f.m = "Ts" -> LET s == NumOr0(w, "seconds")  ns == NumOr0(w, "nanos") IN
                            IF TsOk(s, ns) THEN [k |-> "ts", s |-> s, ns |-> ns] ELSE ERR
           [] f.m = "Struct" -> FromField(Msgs.Struct[1], IF Has(w.f, "fields") THEN Get(w.f, "fields") ELSE [k |-> "map", e |-> <<>>])
           [] f.m = "ListV" -> FromField(Msgs.ListV[1], IF Has(w.f, "values") THEN Get(w.f, "values") ELSE [k |-> "list", l |-> <<>>])
           [] f.m = "Value" -> IF w.f = <<>> \/ (w.f # <<>> /\ w.f[1][1] = "null_value") THEN [k |-> "null"]
                               ELSE LET g == CHOOSE g \in { Msgs.Value[i] : i \in 1..6 } : g.n = w.f[1][1] IN FromOne(g, w.f[1][2])
           [] OTHER -> FromMsg(f.m, w)
FromField(f, w) ==
    CASE f.c = "rep" -> LET l == TLCEval([i \in DOMAIN w.l |-> FromOne(f, w.l[i])]) IN IF AnyErr(l) THEN ERR ELSE [k |-> "list", l |-> l]
      [] f.c = "map" -> LET l == TLCEval([i \in DOMAIN w.e |-> FromOne(f, w.e[i][2])]) IN
                        IF AnyErr(l) THEN ERR ELSE [k |-> "map", e |-> [i \in DOMAIN w.e |-> <<w.e[i][1], l[i]>>]]
      [] OTHER -> FromOne(f, w)
FromMsg(m, w) ==
    LET fs == SelectSeq(Msgs[m], LAMBDA f : Has(w.f, f.n) \/ ~Presence(f))
        vs == TLCEval([i \in DOMAIN fs |-> IF Has(w.f, fs[i].n) THEN FromField(fs[i], Get(w.f, fs[i].n)) ELSE Default(fs[i])]) IN
    IF AnyErr(vs) THEN ERR
    ELSE [k |-> "struct", t |-> m, f |-> [i \in DOMAIN fs |-> <<fs[i].n, vs[i]>>]]

(* ------------------------------------------------------------------------ *)
(* Expressions: as much of them as it takes to move values about.            *)
TypeOk(f, v) == CASE f.c = "rep" -> v.k = "list"
                  [] f.c = "map" -> v.k = "map"
                  [] f.t = "msg" -> IF f.m = "Ts" THEN v.k = "ts" ELSE v.k = "struct" /\ v.t = f.m
                  [] f.t = "bool" -> v.k = "bool"
                  [] f.t \in {"i32", "i64", "enum", "null"} -> v.k = "int"
                  [] f.t \in {"u32", "u64"} -> v.k = "uint"
                  [] f.t \in {"f32", "f64"} -> v.k = "dbl"
                  [] f.t = "str" -> v.k = "str"
                  [] f.t = "bytes" -> v.k = "bytes"
AtKey(e, key) == LET i == { j \in DOMAIN e : e[j][1].k = key.k /\ e[j][1] = key } IN IF i = {} THEN ERR ELSE e[CHOOSE j \in i : TRUE][2]
Small(n) == n[6]
Select(v, n) == CASE v.k = "struct" -> Get(v.f, n)
                  [] v.k = "map" -> AtKey(v.e, [k |-> "str", s |-> n])
                  [] OTHER -> ERR
RECURSIVE Eval(_, _)
Eval(x, d) ==
    CASE x.x = "lit" -> x.v
      [] x.x = "d" -> d
      [] x.x = "sel" -> LET v == Eval(x.a, d) IN IF v.k = "err" THEN ERR ELSE Select(v, x.n)
      [] x.x = "has" -> LET v == Eval(x.a, d) IN IF v.k \notin {"struct", "map"} THEN ERR ELSE [k |-> "bool", b |-> Select(v, x.n).k # "err"]
      [] x.x = "at" -> LET v == Eval(x.a, d)  key == Eval(x.b, d) IN
                       CASE v.k = "map" -> IF key.k = "err" THEN ERR ELSE AtKey(v.e, key)
                         [] v.k = "list" -> IF key.k = "int" /\ key.n[2] = 0 /\ U32(key.n) /\ Small(key.n) < Len(v.l) THEN v.l[Small(key.n) + 1] ELSE ERR
                         [] OTHER -> ERR
      [] x.x = "list" -> LET l == TLCEval([i \in DOMAIN x.l |-> Eval(x.l[i], d)]) IN IF AnyErr(l) THEN ERR ELSE [k |-> "list", l |-> l]
      [] x.x = "map" -> LET l == TLCEval([i \in DOMAIN x.e |-> Eval(x.e[i][2], d)]) IN
                        IF AnyErr(l) THEN ERR ELSE [k |-> "map", e |-> [i \in DOMAIN x.e |-> <<x.e[i][1], l[i]>>]]
      [] x.x = "new" -> LET l == TLCEval([i \in DOMAIN x.f |-> Eval(x.f[i][2], d)])
                            fs == Msgs[x.t]
                            ok(i) == \E j \in DOMAIN fs : fs[j].n = x.f[i][1] /\ TypeOk(fs[j], l[i])
                            mine == SelectSeq(fs, LAMBDA f : Has(x.f, f.n)) IN
                        IF AnyErr(l) \/ (\E i \in DOMAIN l : ~ok(i)) THEN ERR
                        ELSE [k |-> "struct", t |-> x.t,
                              f |-> [i \in DOMAIN mine |-> <<mine[i].n, l[CHOOSE j \in DOMAIN x.f : x.f[j][1] = mine[i].n]>>]]

(* ------------------------------------------------------------------------ *)
(* Stored for the host: a map as a Struct, anything else as a Value.         *)
RECURSIVE ToValue(_), ToStruct(_)
Alt(n, w) == [k |-> "msg", f |-> << <<n, w>> >>]
ToValue(v) ==
    CASE v.k = "null" -> Alt("null_value", [k |-> "int", n |-> Zero])
      [] v.k = "dbl" -> Alt("number_value", v)
      [] v.k \in {"int", "uint"} -> Alt("number_value", [k |-> "dbl", d |-> DblOf(v.n[1])])
      [] v.k = "str" -> Alt("string_value", v)
      [] v.k = "bytes" -> Alt("string_value", [k |-> "str", s |-> v.s])
      [] v.k = "bool" -> Alt("bool_value", v)
      [] v.k = "map" -> LET w == ToStruct(v) IN IF w.k = "err" THEN ERR ELSE Alt("struct_value", w)
      [] v.k = "list" -> LET l == TLCEval([i \in DOMAIN v.l |-> ToValue(v.l[i])]) IN
                         IF AnyErr(l) THEN ERR ELSE Alt("list_value", [k |-> "msg", f |-> IF l = <<>> THEN <<>> ELSE << <<"values", [k |-> "list", l |-> l]>> >>])
      [] OTHER -> ERR
ToStruct(v) ==
    LET l == TLCEval([i \in DOMAIN v.e |-> ToValue(v.e[i][2])]) IN
    IF AnyErr(l) \/ (\E i \in DOMAIN v.e : v.e[i][1].k # "str") THEN ERR
    ELSE [k |-> "msg", f |-> IF l = <<>> THEN <<>> ELSE << <<"fields", [k |-> "map", e |-> [i \in DOMAIN v.e |-> <<v.e[i][1], l[i]>>]]>> >>]
Export(v) == IF v.k = "err" THEN [as |-> "none", w |-> ERR]
             ELSE LET w == IF v.k = "map" THEN ToStruct(v) ELSE ToValue(v) IN
                  [as |-> IF w.k = "err" THEN "none" ELSE IF v.k = "map" THEN "Struct" ELSE "Value", w |-> w]

(* Header pairs: lists of two texts, structs with a text key and value, or such a struct as header. *)
KeyVal(s) == LET a == Get(s.f, "key")  b == Get(s.f, "value") IN IF a.k = "str" /\ b.k = "str" THEN << <<a.s, b.s>> >> ELSE <<>>
PairOf(v) == CASE v.k = "list" -> IF Len(v.l) = 2 /\ v.l[1].k = "str" /\ v.l[2].k = "str" THEN << <<v.l[1].s, v.l[2].s>> >> ELSE <<>>
               [] v.k = "struct" -> IF KeyVal(v) # <<>> THEN KeyVal(v)
                                    ELSE LET h == Get(v.f, "header") IN IF h.k = "struct" THEN KeyVal(h) ELSE <<>>
               [] OTHER -> <<>>
RECURSIVE PairsIn(_)
PairsIn(l) == IF l = <<>> THEN <<>> ELSE PairOf(l[1]) \o PairsIn(Tail(l))
Pairs(v) == IF v.k = "list" THEN PairsIn(v.l) ELSE <<>>

(* The answer to the client: with the status given, if it is one, and 500 if none is given. *)
Failed == [status |-> "500", body |-> "Internal Server Error.\n", hs |-> <<>>]
None == [status |-> "none", body |-> "", hs |-> <<>>]
NoAnswer == [status |-> "err", body |-> "", hs |-> <<>>]
Answer(x, d) ==   \* x: the fields of the DenyResponse
    LET l == TLCEval([i \in DOMAIN x |-> Eval(x[i][2], d)])
        v(n) == IF Has(x, n) THEN l[CHOOSE i \in DOMAIN x : x[i][1] = n] ELSE ERR
        s == v("status")  b == v("body") IN
    IF AnyErr(l) \/ (Has(x, "status") /\ (s.k # "uint" \/ (s.k = "uint" /\ ~U32(s.n)))) THEN NoAnswer
    ELSE [status |-> IF Has(x, "status") THEN s.n[1] ELSE "500", body |-> IF b.k = "str" THEN b.s ELSE "", hs |-> Pairs(v("headers"))]

(* ------------------------------------------------------------------------ *)
(* One exchange: c.m makes the call (deny: the service fails closed), c.rep  *)
(* is the reply; the actions on it make a second call, store a value, set    *)
(* headers and, if told so, answer.                                          *)
Outcome(c) ==
    LET m == TLCEval(Eval(c.m, ERR))
        sent == TLCEval(IF m.k = "err" THEN ERR ELSE ToMsg("Req", m))
        d == TLCEval(IF sent.k = "err" \/ c.rep.k = "err" THEN ERR ELSE FromMsg("Resp", c.rep))
        on == d.k # "err"
        m2 == IF on THEN Eval(c.second, d) ELSE ERR
        x == IF on THEN Export(Eval(c.store, d)) ELSE [as |-> "none", w |-> ERR]
        on2 == on /\ ~(c.deny /\ x.as = "none")
        hv == IF on2 THEN Eval(c.hdr, d) ELSE ERR
        on3 == on2 /\ ~(c.deny /\ hv.k = "err") IN
    [ sent |-> sent,
      second |-> IF m2.k = "err" THEN ERR ELSE ToMsg("Req", m2),
      exp |-> x,
      hs |-> IF hv.k = "err" THEN <<>> ELSE Pairs(hv),
      answer |-> LET a == IF on3 THEN (IF c.answers THEN Answer(c.reply, d) ELSE None) ELSE NoAnswer IN
                 IF a # NoAnswer THEN a ELSE IF c.deny THEN Failed ELSE None ]
=============================================================================
