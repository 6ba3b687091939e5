-------------------------------- MODULE Attrs --------------------------------
(***************************************************************************)
(* What actions read from the host, and the headers they set.              *)
(*                                                                         *)
(* A program P read from JSON:                                             *)
(*   P.attrs  attributes of the host: [n]; "raddr" is the client address   *)
(*            without its port, taken from "addr"                          *)
(*   P.acts   actions, each after the one before: [k, ...]                 *)
(*     "read" as: names of attributes; exports their values                *)
(*     "look" h: exports the value of a request header                     *)
(*     "set"  tgt "req"/"resp", pairs: sequence of [n, v, a]: sets headers,*)
(*            to a text v or, if a # "", to the value of attribute a       *)
(*     "call" guard: makes a call and waits for its answer                 *)
(*   P.fails  what the host refuses: "setreq", "setresp", "setprop"        *)
(* What the host has for an attribute: [k, x], k one of "val", "none",     *)
(* "notyet" (in this phase), "err", "bad" (not a value of its type); x is  *)
(* the value as it is exported, for "addr" its parts [ip, form, port].     *)
(* An event carries what has changed at the host: chg, a sequence of       *)
(* [n, k, x].                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == { f[x] : x \in DOMAIN f }
Upd(f, k, v) == (k :> v) @@ f
EmptyFun == [x \in {} |-> 0]
Null == <<"null", "">>

\* the address of the client as the host gives it
Bracket(f) == f \in {"v6b", "v6bp"}
AddrText(a) == (IF Bracket(a.form) THEN "[" ELSE "") \o a.ip \o (IF Bracket(a.form) THEN "]" ELSE "")
               \o (IF a.form \in {"v4p", "v6bp"} THEN ":" \o a.port ELSE "")

(***************************************************************************)
(* Headers: sequences of <<name, value>>, names in lower case              *)
(***************************************************************************)
SetHeader(hs, n, v) == Append(SelectSeq(hs, LAMBDA h : h[1] # n), <<n, v>>)
RECURSIVE SetAll(_, _, _)
SetAll(hs, ps, vs) == IF ps = <<>> THEN hs ELSE SetAll(SetHeader(hs, Head(ps).n, Head(vs)), Tail(ps), Tail(vs))
RECURSIVE JoinVals(_)
JoinVals(hs) == IF Len(hs) = 1 THEN hs[1][2] ELSE hs[1][2] \o "," \o JoinVals(Tail(hs))

(***************************************************************************)
(* State                                                                   *)
(***************************************************************************)
Init0(P) == [ host |-> EmptyFun, req |-> <<>>, resp |-> <<>>, up |-> FALSE, back |-> FALSE,
              cache |-> EmptyFun, at |-> 1, out |-> FALSE, o |-> <<>> ]
Emit(S, x) == [S EXCEPT !.o = Append(@, x)]
Next1(S) == [S EXCEPT !.at = @ + 1]

Host(S, n) == IF n \in DOMAIN S.host THEN S.host[n] ELSE [k |-> "none", x |-> Null]
\* what the filter gets if it asks now; an address that is no text is an error, not a value
Fetch(S, n) == IF n = "raddr"
               THEN LET h == Host(S, "addr") IN
                    CASE h.k = "val" -> [k |-> "val", x |-> <<"str", h.x.ip>>] [] h.k = "bad" -> [k |-> "err", x |-> Null] [] OTHER -> h
               ELSE LET h == Host(S, n) IN
                    IF n = "addr" /\ h.k = "val" THEN [k |-> "val", x |-> <<"str", AddrText(h.x)>>] ELSE h
\* asked for once: what was had stays
Known(S, n) == IF n \in DOMAIN S.cache THEN S.cache[n] ELSE Fetch(S, n)
Asked(S, ns) == LET new == { n \in ns : n \notin DOMAIN S.cache /\ Fetch(S, n).k \in {"val", "none", "bad"} } IN
                [S EXCEPT !.cache = [n \in new |-> Fetch(S, n)] @@ @]
Outcome(S, ns) == IF \E n \in ns : Known(S, n).k = "notyet" THEN "wait"
                  ELSE IF \E n \in ns : Known(S, n).k \in {"err", "bad"} THEN "fail" ELSE "ok"
Value(S, n) == IF Known(S, n).k = "none" THEN Null ELSE Known(S, n).x

Export(P, S, i, vs) == IF "setprop" \in Range(P.fails) THEN Next1(S) ELSE Next1(Emit(S, <<"P", ToString(i), vs>>))
PairAttrs(a) == { p.a : p \in Range(a.pairs) } \ {""}
\* only texts can be header values: a pair without one is left out
PairVals(S, a) == [ j \in DOMAIN a.pairs |-> IF a.pairs[j].a = "" THEN <<"str", a.pairs[j].v>> ELSE Value(S, a.pairs[j].a) ]

DoRead(P, S, a) ==
    LET T == Asked(S, Range(a.as))
        r == Outcome(S, Range(a.as))
    IN CASE r = "wait" -> T
         [] r = "fail" -> Next1(T)
         [] r = "ok" -> Export(P, T, S.at, [j \in DOMAIN a.as |-> Value(S, a.as[j])])
DoLook(P, S, a) ==
    LET hs == SelectSeq(S.req, LAMBDA h : h[1] = a.h) IN
    IF hs = <<>> THEN Next1(S) ELSE Export(P, S, S.at, << <<"str", JoinVals(hs)>> >>)
DoSet(P, S, a) ==
    LET T == Asked(S, PairAttrs(a))
        r == Outcome(S, PairAttrs(a))
        vs == PairVals(S, a)
        js == SelectSeq([j \in DOMAIN a.pairs |-> j], LAMBDA j : vs[j][1] = "str")
        ps == [j \in DOMAIN js |-> a.pairs[js[j]]]
        xs == [j \in DOMAIN js |-> vs[js[j]][2]]
        new == SetAll(IF a.tgt = "req" THEN S.req ELSE S.resp, ps, xs)
    IN IF r = "wait" THEN T
       ELSE IF r = "fail" \/ ps = <<>> THEN Next1(T)
       ELSE IF a.tgt = "resp" /\ ~S.back THEN T
       ELSE IF ("set" \o a.tgt) \in Range(P.fails) THEN Next1(T)
       ELSE Next1(Emit(IF a.tgt = "req" THEN [T EXCEPT !.req = new] ELSE [T EXCEPT !.resp = new], <<"H", a.tgt, new>>))
\* one attempt at the action that is due; the same position if it has to wait
Try(P, S) ==
    LET a == P.acts[S.at] IN
    CASE a.k = "read" -> DoRead(P, S, a)
      [] a.k = "look" -> DoLook(P, S, a)
      [] a.k = "set" -> DoSet(P, S, a)
      [] a.k = "call" -> IF S.out THEN S ELSE Emit([S EXCEPT !.out = TRUE], <<"C">>)
RECURSIVE Run(_, _)
Run(P, S) == IF S.at > Len(P.acts) THEN S
             ELSE LET T == Try(P, S) IN IF T.at = S.at THEN T ELSE Run(P, T)

RECURSIVE Changes(_, _)
Changes(h, cs) == IF cs = <<>> THEN h ELSE Changes(Upd(h, Head(cs).n, [k |-> Head(cs).k, x |-> Head(cs).x]), Tail(cs))
Possible(S, e) == CASE e.ev = "reqh" -> ~S.up [] e.ev = "resph" -> S.up /\ ~S.back [] e.ev = "answer" -> S.out [] OTHER -> S.up
Step(P, S0, e) ==
    LET S == [S0 EXCEPT !.o = <<>>, !.host = Changes(@, e.chg)] IN
    Run(P, CASE e.ev = "reqh"  -> [S EXCEPT !.up = TRUE, !.req = e.hs]
             [] e.ev = "resph" -> [S EXCEPT !.back = TRUE, !.resp = e.hs]
             [] e.ev = "answer" -> [S EXCEPT !.out = FALSE, !.at = @ + 1]
             [] OTHER -> S)
=============================================================================
