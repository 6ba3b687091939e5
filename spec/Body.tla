-------------------------------- MODULE Body --------------------------------
(***************************************************************************)
(* What is read from bodies.  A body arrives in chunks that may end        *)
(* anywhere, inside a character too.                                       *)
(*                                                                         *)
(* A program P read from JSON:                                             *)
(*   P.side    "req" or "resp": the body that is read                      *)
(*   P.sse     the response is an event stream                             *)
(*   P.stores  sequence of [ptrs, text]: actions that store the values at  *)
(*             some pointers, as a list, or their text                     *)
(*   P.hold    a guard call is made once the first store is done           *)
(*   P.usage   sequence of pointers: a call that sends the text of what is *)
(*             there (response only); P.deny its failure mode              *)
(*   P.docs    documents; a JSON body is the first                         *)
(*   P.lines   the lines of an event stream                                *)
(* A pointer is a sequence of keys, a key a sequence of code points.       *)
(* A document: [k, ...] with k one of                                      *)
(*   "obj" kids: sequence of [key: units, v: document], "arr" kids:        *)
(*   sequence of documents, "str" u: units, "num" raw, txt, "lit" v,       *)
(*   "bad" something that is not JSON                                      *)
(* A unit is one character or escape: [k, c], k "raw" with a code point,   *)
(* "esc" with the letter of a short escape, "u" with the number of \uXXXX  *)
(* A line: [f, d, a, b, end]: the field, the tokens a..b of document d     *)
(* (d = 0: nothing, d = -1: other text).  end is left to the text.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == { f[x] : x \in DOMAIN f }
Upd(f, k, v) == (k :> v) @@ f
EmptyFun == [x \in {} |-> 0]

(***************************************************************************)
(* Text                                                                    *)
(***************************************************************************)
Escape(c) == CASE c = "n" -> 10 [] c = "t" -> 9 [] c = "r" -> 13 [] c = "b" -> 8 [] c = "f" -> 12
               [] c = "q" -> 34 [] c = "s" -> 92 [] c = "/" -> 47
High(x) == x >= 55296 /\ x <= 56319
Low(x)  == x >= 56320 /\ x <= 57343
\* code points; -1 for half a character
RECURSIVE Decode(_)
Decode(us) ==
    IF us = <<>> THEN <<>>
    ELSE LET x == Head(us) IN
         CASE x.k = "raw" -> <<x.c>> \o Decode(Tail(us))
           [] x.k = "esc" -> <<Escape(x.e)>> \o Decode(Tail(us))
           [] x.k = "u" ->
              IF High(x.c) /\ Len(us) > 1 /\ us[2].k = "u" /\ Low(us[2].c)
              THEN <<65536 + (x.c - 55296) * 1024 + (us[2].c - 56320)>> \o Decode(Tail(Tail(us)))
              ELSE <<IF High(x.c) \/ Low(x.c) THEN -1 ELSE x.c>> \o Decode(Tail(us))
Digits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
RECURSIVE Decimal(_)
Decimal(n) == (IF n < 10 THEN <<>> ELSE Decimal(n \div 10)) \o <<Digits[(n % 10) + 1]>>

\* values: [k, v]; "bad" if it is no value
ScalarValue(d) ==
    CASE d.k = "str" -> LET s == Decode(d.u) IN [k |-> IF -1 \in Range(s) THEN "bad" ELSE "str", v |-> s, t |-> s]
      [] d.k = "num" -> [k |-> "num", v |-> d.raw, t |-> d.txt]
      [] d.k = "lit" -> [k |-> "lit", v |-> d.v, t |-> d.v]
Scalar(d) == d.k \in {"str", "num", "lit"}

(***************************************************************************)
(* The document as a whole: what is at a pointer                           *)
(***************************************************************************)
NONE == [k |-> "none", v |-> <<>>, t |-> <<>>]
RECURSIVE Lookup(_, _)
Lookup(d, p) ==
    IF p = <<>> THEN IF Scalar(d) THEN ScalarValue(d) ELSE NONE
    ELSE CASE d.k = "obj" ->
                LET is == { i \in DOMAIN d.kids : Decode(d.kids[i].key) = p[1] } IN
                IF is = {} THEN NONE ELSE Lookup(d.kids[CHOOSE i \in is : TRUE].v, Tail(p))
           [] d.k = "arr" ->
                LET is == { i \in DOMAIN d.kids : Decimal(i - 1) = p[1] } IN
                IF is = {} THEN NONE ELSE Lookup(d.kids[CHOOSE i \in is : TRUE], Tail(p))
           [] OTHER -> NONE
RECURSIVE Sound(_)
Sound(d) == CASE d.k = "bad" -> FALSE
              [] d.k = "obj" -> \A i \in DOMAIN d.kids : Sound(d.kids[i].v) /\ -1 \notin Range(Decode(d.kids[i].key))
              [] d.k = "arr" -> \A i \in DOMAIN d.kids : Sound(d.kids[i])
              [] OTHER -> ~Scalar(d) \/ ScalarValue(d).k # "bad"

(***************************************************************************)
(* The document as it arrives                                              *)
(***************************************************************************)
Tok(t) == [t |-> t, d |-> [k |-> "none"]]
RECURSIVE Tokens(_), ObjToks(_, _), ArrToks(_, _)
ObjToks(ks, i) == IF i > Len(ks) THEN <<>>
                  ELSE (IF i > 1 THEN <<Tok(",")>> ELSE <<>>) \o <<[t |-> "key", d |-> ks[i].key], Tok(":")>> \o Tokens(ks[i].v)
                       \o ObjToks(ks, i + 1)
ArrToks(ks, i) == IF i > Len(ks) THEN <<>>
                  ELSE (IF i > 1 THEN <<Tok(",")>> ELSE <<>>) \o Tokens(ks[i]) \o ArrToks(ks, i + 1)
Tokens(d) == CASE d.k = "obj" -> <<Tok("{")>> \o ObjToks(d.kids, 1) \o <<Tok("}")>>
               [] d.k = "arr" -> <<Tok("[")>> \o ArrToks(d.kids, 1) \o <<Tok("]")>>
               [] d.k = "bad" -> <<Tok("bad")>>
               [] OTHER -> <<[t |-> d.k, d |-> d]>>

OFF == << <<-1>> >>
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Child(ptrs, path, key) == LET p == Append(path, key) IN IF \E q \in Range(ptrs) : IsPrefix(p, q) THEN p ELSE OFF
\* pos: tokens read; num: a number whose end has not been seen
Reader0 == [pos |-> 0, stack |-> <<>>, pend |-> <<>>, skip |-> 0, got |-> EmptyFun, num |-> <<>>, at |-> <<>>, err |-> FALSE, any |-> FALSE]
All(ptrs, M) == Range(ptrs) \subseteq DOMAIN M.got
EndNum(M) == IF M.num = <<>> THEN M ELSE [M EXCEPT !.got = (M.at :> ScalarValue(M.num[1])) @@ @, !.num = <<>>]
Read1(ptrs, M0, tok) ==
    LET M == [EndNum(M0) EXCEPT !.pos = @ + 1, !.any = TRUE]
        top == M.stack[Len(M.stack)]
    IN
    IF M.err \/ All(ptrs, M) THEN M
    ELSE IF M.skip > 0
         THEN CASE tok.t \in {"{", "["} -> [M EXCEPT !.skip = @ + 1]
                [] tok.t \in {"}", "]"} -> [M EXCEPT !.skip = @ - 1]
                [] OTHER -> M
    ELSE CASE tok.t = "bad" -> [M EXCEPT !.err = TRUE]
           [] tok.t = "{" -> IF M.pend = OFF THEN [M EXCEPT !.skip = 1]
                             ELSE [M EXCEPT !.stack = Append(@, [k |-> "obj", p |-> M.pend, i |-> 0])]
           [] tok.t = "[" -> IF M.pend = OFF THEN [M EXCEPT !.skip = 1]
                             ELSE [M EXCEPT !.stack = Append(@, [k |-> "arr", p |-> M.pend, i |-> 0]),
                                            !.pend = Child(ptrs, M.pend, Decimal(0))]
           [] tok.t \in {"}", "]"} -> [M EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
           [] tok.t = "key" -> [M EXCEPT !.pend = Child(ptrs, top.p, Decode(tok.d))]
           [] tok.t = ":" -> M
           [] tok.t = "," -> IF top.k = "obj" THEN M
                             ELSE [M EXCEPT !.stack[Len(M.stack)].i = @ + 1, !.pend = Child(ptrs, top.p, Decimal(top.i + 1))]
           [] OTHER -> IF M.pend \notin Range(ptrs) THEN M
                       ELSE IF tok.t = "num" THEN [M EXCEPT !.num = <<tok.d>>, !.at = M.pend]
                       ELSE [M EXCEPT !.got = (M.pend :> ScalarValue(tok.d)) @@ @]
RECURSIVE ReadTo(_, _, _, _)
ReadTo(ptrs, M, toks, upto) == IF M.pos >= upto THEN M ELSE ReadTo(ptrs, Read1(ptrs, M, toks[M.pos + 1]), toks, upto)
\* a chunk that ends after token upto and, part, inside ("mid") or before ("ws") the next one
ReadChunk(ptrs, M, toks, c) ==
    LET M1 == ReadTo(ptrs, M, toks, c.upto) IN IF c.part = "none" \/ M1.err THEN M1 ELSE EndNum(M1)
\* the body ends here
Finish(ptrs, M, c) ==
    IF M.err \/ All(ptrs, M) THEN M
    ELSE IF M.num # <<>> THEN EndNum(M)
    ELSE IF M.stack = <<>> /\ M.skip = 0 /\ M.any /\ c.part # "mid" THEN M ELSE [M EXCEPT !.err = TRUE]

(***************************************************************************)
(* Event streams: the lines that have arrived make events                  *)
(***************************************************************************)
Content(l) == IF l.d = 0 THEN <<>> ELSE << [d |-> l.d, a |-> l.a, b |-> l.b] >>
\* an event without data does not count
RECURSIVE Events(_, _)
Events(ls, data) ==
    IF ls = <<>> THEN <<>>
    ELSE LET l == Head(ls) IN
         CASE l.f = "" -> (IF data = <<>> THEN <<>> ELSE <<data>>) \o Events(Tail(ls), <<>>)
           [] l.f = "data" -> Events(Tail(ls), data \o Content(l))
           [] OTHER -> Events(Tail(ls), data)
\* the document an event carries: 0 if it is not one
RECURSIVE Pieces(_, _)
Pieces(ps, from) == IF ps = <<>> THEN from
                    ELSE IF Head(ps).d # ps[1].d \/ Head(ps).a # from THEN 0 ELSE Pieces(Tail(ps), Head(ps).b + 1)
Carried(P, ev) ==
    LET d == ev[1].d IN
    IF d < 1 \/ \E x \in Range(ev) : x.d # d THEN 0
    ELSE IF Pieces(ev, 1) = Len(Tokens(P.docs[d])) + 1 /\ Sound(P.docs[d]) THEN d ELSE 0
StreamDoc(P) == LET es == Events(P.lines, <<>>) IN IF Len(es) < 2 THEN 0 ELSE Carried(P, es[Len(es) - 1])

(***************************************************************************)
(* State                                                                   *)
(***************************************************************************)
NoObs == [seq |-> <<>>, errs |-> 0]
Init0(P) == [ r |-> [i \in DOMAIN P.stores |-> Reader0],
              st |-> [i \in DOMAIN P.stores |-> "wait"],
              hold |-> IF P.hold THEN "wait" ELSE "off", use |-> IF P.usage = <<>> THEN "off" ELSE "wait",
              full |-> FALSE, got |-> 0, end |-> FALSE, dead |-> FALSE, o |-> NoObs ]
Emit(S, x) == [S EXCEPT !.o.seq = Append(@, x)]
Error(S) == [S EXCEPT !.o.errs = @ + 1]
Shown(v, text) == IF text THEN [k |-> "str", v |-> v.t] ELSE [k |-> v.k, v |-> v.v]
\* what can be made text of
Text(v) == v.k \in {"str", "num"}

Stored(P, S, i, vals) ==
    LET s == P.stores[i] IN
    IF \E p \in DOMAIN s.ptrs : vals[p].k \in {"none", "bad"} \/ (s.text /\ ~Text(vals[p])) THEN [S EXCEPT !.st[i] = "failed"]
    ELSE Emit([S EXCEPT !.st[i] = "done"], <<"P", ToString(i), [p \in DOMAIN s.ptrs |-> Shown(vals[p], s.text)]>>)
Store(P, S, i, c) ==
    LET s == P.stores[i] IN
    IF S.st[i] # "wait" THEN S
    ELSE IF P.sse
    THEN IF ~c.eos THEN S
         ELSE LET d == StreamDoc(P) IN
              IF d = 0 THEN [S EXCEPT !.st[i] = "failed"]
              ELSE Stored(P, S, i, [p \in DOMAIN s.ptrs |-> Lookup(P.docs[d], s.ptrs[p])])
    ELSE LET M1 == ReadChunk(s.ptrs, S.r[i], Tokens(P.docs[1]), c)
             M == IF c.eos THEN Finish(s.ptrs, M1, c) ELSE M1
             T == [S EXCEPT !.r[i] = M]
         IN IF All(s.ptrs, M) THEN Stored(P, T, i, [p \in DOMAIN s.ptrs |-> M.got[s.ptrs[p]]])
            ELSE IF M.err \/ c.eos THEN [T EXCEPT !.st[i] = "failed"]
            ELSE T
\* the call that holds the stream once the first store is done
Hold(S) == IF S.hold # "wait" \/ S.st[1] = "wait" THEN S
           ELSE IF S.st[1] = "done" THEN Emit([S EXCEPT !.hold = "out"], <<"C", "hold", <<>>>>)
           ELSE Error([S EXCEPT !.hold = "off"])
Join(vs) == LET RECURSIVE Go(_)
                Go(i) == IF i > Len(vs) THEN <<>> ELSE (IF i > 1 THEN <<124>> ELSE <<>>) \o vs[i].t \o Go(i + 1)
            IN Go(1)
Use(P, S, c) ==
    IF S.use # "wait" \/ ~c.eos THEN S
    ELSE LET d == IF P.sse THEN StreamDoc(P)
                  ELSE IF Sound(P.docs[1]) /\ c.upto = Len(Tokens(P.docs[1])) /\ c.part # "mid" THEN 1 ELSE 0
             vs == [i \in DOMAIN P.usage |-> IF d = 0 THEN NONE ELSE Lookup(P.docs[d], P.usage[i])]
         IN IF \A i \in DOMAIN vs : vs[i].k # "none" /\ Text(vs[i])
            THEN Emit([S EXCEPT !.use = "out"], <<"C", "use", Join(vs)>>)
            ELSE LET T == Error([S EXCEPT !.use = "off"]) IN IF P.deny THEN Emit([T EXCEPT !.dead = TRUE], <<"R", "500">>) ELSE T

RECURSIVE StoreAll(_, _, _, _)
StoreAll(P, S, i, c) == IF i > Len(P.stores) THEN S
                        ELSE LET T == Store(P, S, i, c) IN StoreAll(P, IF i = 1 THEN Hold(T) ELSE T, i + 1, c)
Possible(S, e) == CASE e.ev = "chunk" -> ~S.end [] e.ev = "hold" -> S.hold = "out" [] e.ev = "use" -> S.use = "out"
Step(P, S0, e) ==
    LET S == [S0 EXCEPT !.o = NoObs] IN
    IF e.ev = "hold" THEN [S EXCEPT !.hold = "off"]
    ELSE IF e.ev = "use" THEN [S EXCEPT !.use = "off"]
    ELSE IF S.dead THEN [S EXCEPT !.end = e.eos]
    ELSE Use(P, StoreAll(P, [S EXCEPT !.end = e.eos], 1, e), e)
=============================================================================
