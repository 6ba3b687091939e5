------------------------------- MODULE OutMC -------------------------------
(***************************************************************************)
(* Every history of one or two requests of small programs that share the  *)
(* filter and its buffer of spans: how they interleave, how calls are      *)
(* answered, when streams are dropped, and when the level of tracing       *)
(* changes.  The properties are over what the spans and the calls say, not *)
(* over the state of the filter.  hist is hidden by the view; the          *)
(* behaviours it spells are replayed into the code.                        *)
(***************************************************************************)
EXTENDS Out, Json, IOUtils

ASSUME TLCSet(2, JsonDeserialize(IOEnv.PROG_FILE))
ASSUME TLCSet(3, TLCEval([i \in DOMAIN TLCGet(2) |-> [j \in DOMAIN TLCGet(2)[i].p |-> Load(TLCGet(2)[i].p[j])]]))
VARIABLES pid, Ss, ix, lvl, chg, gone, log, buf, calls, ans, viol, hist
vars == <<pid, Ss, ix, lvl, chg, gone, log, buf, calls, ans, viol, hist>>
Progs == TLCGet(3)[pid]
Prog(c) == [Progs[c] EXCEPT !.lvl = lvl, !.pend = \E d \in DOMAIN buf : buf[d] > 0]

Init == /\ pid \in DOMAIN TLCGet(3)
        /\ Ss = [c \in DOMAIN TLCGet(3)[pid] |-> Init0(TLCGet(3)[pid][c])]
        /\ ix = [c \in DOMAIN Ss |-> <<0, 0>>]
        /\ lvl = LevelOf(TLCGet(2)[pid].level) /\ chg = 0
        /\ gone = {} /\ viol = {} /\ hist = <<>>
        /\ log = [c \in DOMAIN Ss |-> <<>>] /\ buf = [c \in DOMAIN Ss |-> 0]
        /\ calls = [c \in DOMAIN Ss |-> {}] /\ ans = [c \in DOMAIN Ss |-> 0]

NoC == [set |-> EmptyFun, n |-> 0, bad |-> FALSE, close |-> FALSE, eos |-> FALSE]
E(ev) == [ev |-> ev, eos |-> FALSE, chunk |-> NoC, tok |-> 0, res |-> ""]
Exports(seq) == \E i \in DOMAIN seq : seq[i][1] \in {"X", "XF"}
\* a call must say it comes from a span that exists
Lost(P, S, T, id) ==
    LET w == Caller(P, id) IN
    /\ id # "trace"
    /\ w \notin {"client", "none"}
    /\ ~ \/ \E s \in Range(T.sp) : s[1] = "grpc_request" /\ w = "q:" \o s[2]
         \/ \E t \in T.g : w = "g:" \o t
         \/ \E t \in Range(P.top) : w = "g:" \o t /\ \E s \in Range(T.sp) : s[1] = "grpc" /\ s[2] = t \o "|" \o Act(P, t).label

Do(c, e, code) ==
    LET P == Prog(c)
        T == Step(P, Ss[c], e)
        ids == CallsOf(T.o.seq)
        live == { d.tok : d \in { x \in Range(Ss[c].d) : ~x.noop } } IN
    /\ c \notin gone /\ Possible(Ss[c], e)
    /\ Ss' = [Ss EXCEPT ![c] = T]
    /\ log' = [log EXCEPT ![c] = @ \o T.sp]
    /\ buf' = IF Exports(T.o.seq) THEN [d \in DOMAIN buf |-> 0] ELSE [buf EXCEPT ![c] = @ + Len(T.sp)]
    /\ calls' = [calls EXCEPT ![c] = @ \cup (Range(ids) \ {"trace"})]
    /\ ans' = [ans EXCEPT ![c] = IF e.ev = "grpc" /\ e.tok \in live THEN @ + 1 ELSE @]
    /\ viol' = viol \cup
         (IF \E i \in DOMAIN ids : Lost(P, Ss[c], T, ids[i]) THEN {"a call names a span that is not there"} ELSE {})
         \cup (IF Exports(T.o.seq) /\ ~P.trace THEN {"exported without tracing"} ELSE {})
         \cup (IF Exports(T.o.seq) /\ T.sp = <<>> /\ ~P.pend THEN {"exported nothing"} ELSE {})
         \cup (IF e.ev # "grpc" /\ Len(T.o.seq) > 0 /\ T.o.seq[1][1] = "X" /\ Ss[c].term THEN {"exported again"} ELSE {})
    /\ hist' = Append(hist, <<c, code>>)
    /\ UNCHANGED <<pid, lvl, chg, gone>>

Still == UNCHANGED ix
Next_(c) ==
    \/ Do(c, [E("reqh") EXCEPT !.eos = Progs[c].req = <<>>], "h") /\ Still
    \/ /\ ix[c][1] < Len(Progs[c].req)
       /\ Do(c, [E("reqb") EXCEPT !.chunk = Progs[c].req[ix[c][1] + 1]], "b") /\ ix' = [ix EXCEPT ![c][1] = @ + 1]
    \/ Do(c, [E("resph") EXCEPT !.eos = Progs[c].resp = <<>>], "H") /\ Still
    \/ /\ ix[c][2] < Len(Progs[c].resp)
       /\ Do(c, [E("respb") EXCEPT !.chunk = Progs[c].resp[ix[c][2] + 1]], "B") /\ ix' = [ix EXCEPT ![c][2] = @ + 1]
    \/ /\ Ss[c].pl # "none" /\ Still
       /\ \E x \in Range(Ss[c].d) : \E r \in {"ok", "status", "garbage"} :
             Do(c, [E("grpc") EXCEPT !.tok = x.tok, !.res = r], ToString(x.tok) \o r)
Drop(c) ==
    LET P == Prog(c) 
        sp == Dropped(P, Ss[c]) IN
    /\ c \notin gone /\ Ss[c].pl # "none"
    /\ gone' = gone \cup {c}
    /\ log' = [log EXCEPT ![c] = @ \o sp] /\ buf' = [buf EXCEPT ![c] = @ + Len(sp)]
    /\ hist' = Append(hist, <<c, "d">>)
    /\ UNCHANGED <<pid, Ss, ix, lvl, chg, calls, ans, viol>>
Level ==
    /\ chg = 0 /\ chg' = 1 /\ \E c \in DOMAIN Ss : Ss[c].pl = "run"
    /\ lvl' = 3 - lvl
    /\ hist' = Append(hist, <<0, IF lvl = INFO THEN "DEBUG" ELSE "INFO">>)
    /\ UNCHANGED <<pid, Ss, ix, gone, log, buf, calls, ans, viol>>
Next == (\E c \in DOMAIN Ss : Next_(c) \/ Drop(c)) \/ Level
Spec == Init /\ [][Next]_vars

View == <<pid, [c \in DOMAIN Ss |-> [Ss[c] EXCEPT !.o = 0, !.sp = 0]], ix, lvl, chg, gone, log, buf, calls, ans, viol>>
PrintEdge == PrintT(<<"E", pid, ToJson(hist')>>)

Traced(c) == Progs[c].trace /\ Progs[c].sampled
Over(c) == Ss[c].tear \/ Ss[c].term \/ c \in gone
Names(c, n) == { i \in DOMAIN log[c] : log[c][i][1] = n }
GrpcOf(c, t) == { i \in Names(c, "grpc") : log[c][i][2] = t \o "|" \o Act(Progs[c], t).label }

Holds == viol = {}
\* a request's trace ends with its root span, which it gets exactly when it is over
Root == \A c \in DOMAIN Ss :
    /\ Cardinality(Names(c, "kuadrant_filter")) = (IF Traced(c) /\ Over(c) THEN 1 ELSE 0)
    /\ \A i \in Names(c, "kuadrant_filter") : i = Len(log[c])
\* each top level call has one span, after those below it, and all have when the request is over
PerCall == \A c \in DOMAIN Ss : \A t \in { x \in Range(Progs[c].top) : Act(Progs[c], x).kind = "grpc" } :
    /\ Cardinality(GrpcOf(c, t)) <= 1
    /\ \A i \in GrpcOf(c, t) : \A j \in DOMAIN log[c] : log[c][j][3] = "g:" \o t => j < i
    /\ Traced(c) /\ Over(c) /\ (\E x \in calls[c] : TopOf(Progs[c], x) = t) => GrpcOf(c, t) # {}
\* the details of every call, at the level that has them; none below it
Details == \A c \in DOMAIN Ss :
    /\ chg = 0 /\ lvl = DEBUG /\ Traced(c) =>
          /\ \A x \in calls[c] : \E i \in Names(c, "grpc_request") : log[c][i][2] = x
          /\ Cardinality(Names(c, "grpc_response")) = ans[c]
    /\ chg = 0 /\ lvl = INFO => \A n \in {"grpc_request", "grpc_response", "headers", "store"} : Names(c, n) = {}
Silent == \A c \in DOMAIN Ss : ~Traced(c) => log[c] = <<>>
=============================================================================
