-------------------------------- MODULE Out --------------------------------
(***************************************************************************)
(* What leaves the filter for services other than the client and the       *)
(* upstream: where calls go, whose trace and request they say they belong  *)
(* to, and the spans that are exported.  Several requests share one filter *)
(* and one buffer of ended spans; the life of each is Shim's.              *)
(*                                                                         *)
(* P.addr   action id, or "trace" -> [type, end, svc, met, ms]             *)
(* P.tp     the client sent a trace context                                *)
(* P.set    the action set, host name and request id, as in a root span    *)
(***************************************************************************)
EXTENDS ShimProps

\* the level of spans for a level of tracing; without one, or another one, it is WARN
LevelOf(name) == CASE name \in {"TRACE", "DEBUG"} -> DEBUG [] name = "INFO" -> INFO [] OTHER -> 0

(***************************************************************************)
(* Addresses                                                               *)
(***************************************************************************)
Methods ==
    [ auth |-> <<"envoy.service.auth.v3.Authorization", "Check">>,
      ratelimit |-> <<"envoy.service.ratelimit.v3.RateLimitService", "ShouldRateLimit">>,
      check |-> <<"kuadrant.service.ratelimit.v1.RateLimitService", "CheckRateLimit">>,
      report |-> <<"kuadrant.service.ratelimit.v1.RateLimitService", "Report">>,
      tracing |-> <<"opentelemetry.proto.collector.trace.v1.TraceService", "Export">> ]
To(a) ==
    LET m == IF a.type = "dynamic" THEN <<a.svc, a.met>> ELSE Methods[a.type]
    IN <<a.end, m[1], m[2], ToString(IF a.ms = 0 THEN 20 ELSE a.ms)>>

\* the calls of a step: action id, or "trace"
CallsOf(seq) ==
    LET RECURSIVE Go(_)
        Go(i) == IF i > Len(seq) THEN <<>>
                 ELSE (CASE seq[i][1] = "C" -> <<seq[i][3]>>
                         [] seq[i][1] = "F" -> <<seq[i][2]>>
                         [] seq[i][1] \in {"X", "XF"} -> <<"trace">>
                         [] OTHER -> <<>>) \o Go(i + 1)
    IN Go(1)
Tos(P, seq) == LET c == CallsOf(seq) IN [i \in DOMAIN c |-> To(P.addr[c[i]])]

\* the span a call says it comes from: the innermost traced one; else what the client sent
Caller(P, id) ==
    IF id = "trace" \/ ~Records(P, INFO) THEN (IF P.tp THEN "client" ELSE "none")
    ELSE IF Records(P, DEBUG) THEN "q:" \o id ELSE "g:" \o TopCall(P, id)
\* the rest of the context, and the request id, are those of the client
Callers(P, seq) == LET c == CallsOf(seq) IN [i \in DOMAIN c |-> <<Caller(P, c[i]), "baggage", "state", "id">>]

(***************************************************************************)
(* The buffer of ended spans                                               *)
(***************************************************************************)
CAPACITY == 100
Flat(ss) == LET RECURSIVE Go(_)
                Go(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Go(i + 1)
            IN Go(1)
Times(b, x) == Cardinality({ i \in DOMAIN b : b[i] = x })
SubBag(a, b) == \A x \in Range(a) : Times(a, x) <= Times(b, x)
SameBag(a, b) == Len(a) = Len(b) /\ SubBag(a, b)
\* the longest run of whole steps at the end that fits
RECURSIVE Tail_(_)
Tail_(ss) == IF Len(Flat(ss)) <= CAPACITY THEN ss ELSE Tail_(Tail(ss))
\* whether x is what an export of the spans that ended in the steps ss may carry (the names of a parent, and of the request, may have been lost)
Placed(x) == SelectSeq(x, LAMBDA e : e[4] # "?lost")
Bare(x) == [i \in DOMAIN x |-> [x[i] EXCEPT ![1] = "", ![4] = ""]]
Exported(ss, x) ==
    IF Len(Flat(ss)) <= CAPACITY THEN Len(x) = Len(Flat(ss)) /\ SubBag(Placed(x), Flat(ss)) /\ (Placed(x) = x \/ SubBag(Bare(x), Bare(Flat(ss))))
    ELSE /\ Len(x) = CAPACITY /\ SubBag(Placed(x), Flat(ss)) /\ SubBag(Bare(x), Bare(Flat(ss)))
         /\ SubBag(Bare(Flat(Tail_(ss))), Bare(x))

\* whether a span is in error is only told by runs (P.status) in which it does not depend on what is logged
Tag(P, c, sp) == [i \in DOMAIN sp |-> <<ToString(c)>> \o (IF P.status THEN sp[i] ELSE [sp[i] EXCEPT ![4] = ""])]
\* the stream is closed: what is still open ends
Dropped(P, S) == IF S.pl = "run" /\ ~S.tear /\ P.trace THEN EndSpans(P, Begin(S)).sp ELSE <<>>
=============================================================================
