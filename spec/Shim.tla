------------------------------- MODULE Shim -------------------------------
(***************************************************************************)
(* The life of one HTTP request in the filter: the pipeline of actions its *)
(* action set compiles to, the calls it makes, and when the stream is      *)
(* paused, resumed or answered.                                            *)
(*                                                                         *)
(* A program P is a record read from JSON:                                 *)
(*   P.top    sequence of ids of the top level actions                     *)
(*   P.acts   id -> action; children of "0" are "0.0", "0.1", ...          *)
(*   P.track  httpHeaderIdentifier configured                              *)
(*   P.trace  tracing service configured (and P.track)                     *)
(*   P.root   path -> first segment of a dotted path, "" for a bare name   *)
(*   P.tok0   first token the host hands out                               *)
(*   P.fail   host faults: subset of {"setreq","setresp","setprop"}        *)
(* A reply with an empty message is undecodable ("garbage"), by design.    *)
(* An action is a record with kind, pred, val, term, guard, par, mode,     *)
(* fault, reply (ids of onReply), parent, tgt, path, export; and, if it    *)
(* comes from a legacy configuration (see Legacy), leg, xu, hn.            *)
(* P.lvl, when there: the level of tracing (0 off or WARN, 1 INFO, 2       *)
(* DEBUG), with P.sampled, P.pend (spans of others wait to be exported)    *)
(* and P.tfault (the exporter is unreachable); S.sp are then the spans     *)
(* that ended in the step, <<name, id, parent, status>>, and S.g the open  *)
(* spans of top level calls.                                               *)
(*                                                                         *)
(* Every operator is a function of the state record S; one event of the    *)
(* host is one step.  S.o is what the host observes of that step.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(f) == { f[x] : x \in DOMAIN f }
Upd(f, k, v) == (k :> v) @@ f
EmptyFun == [x \in {} |-> 0]
NULL == "~null"
INT  == "~int"
DEV  == "kuadrant.devMode"
Act(P, id) == P.acts[id]

(***************************************************************************)
(* Static structure                                                        *)
(***************************************************************************)
RECURSIVE Anc(_, _)
Anc(P, id) == {id} \cup (IF Act(P, id).parent = "" THEN {} ELSE Anc(P, Act(P, id).parent))

RECURSIVE Desc(_, _)
Desc(P, id) == {id} \cup UNION { Desc(P, c) : c \in Range(Act(P, id).reply) }

\* what a top level action waits for: a legacy one for the action before it; a sequential one for everything since (and
\* including) the previous sequential one, any other for the previous sequential one
Leg(P, id) == "leg" \in DOMAIN Act(P, id) /\ Act(P, id).leg
DepsAt(P, n) ==
    LET RECURSIVE Go(_, _, _)
        Go(i, fence, par) ==
            LET id == P.top[i] 
                mine == IF Act(P, id).par THEN fence ELSE fence \cup par IN
            IF i = n THEN (IF Leg(P, id) THEN (IF n = 1 THEN {} ELSE {P.top[n - 1]}) ELSE mine)
            ELSE IF Act(P, id).par \/ Leg(P, id) THEN Go(i + 1, fence, par \cup {id})
                                   ELSE Go(i + 1, {id}, {})
    IN  Go(1, {}, {})
Deps(P, id) ==
    IF id = DEV \/ id = "token_usage" \/ Act(P, id).parent # "" THEN {}
    ELSE DepsAt(P, CHOOSE i \in DOMAIN P.top : P.top[i] = id)

\* the expressions an expression is made of
RECURSIVE Leaves(_)
Leaves(e) ==
    CASE e.k \in {"AND", "OR", "CAT"} -> UNION { Leaves(e.s[i]) : i \in DOMAIN e.s }
      [] e.k = "IF" -> Leaves(e.c) \cup Leaves(e.t)
      [] e.k = "NUM" -> Leaves(e.e)
      [] e.k = "BYKIND" -> UNION { Leaves(e.alt[r]) : r \in DOMAIN e.alt }
      [] OTHER -> {e}
Fields(P, id, k) == { e.f : e \in { x \in Leaves(Act(P, id).pred) \cup Leaves(Act(P, id).val) : x.k = k } }
Source(P, id) == IF Fields(P, id, "RQB") # {} THEN "req"
                 ELSE IF Fields(P, id, "RSB") # {} THEN "resp" ELSE "none"

\* response body fields a call (and what it triggers) needs, read ahead of it
Usage(P, id) == UNION { Fields(P, x, "RSB") : x \in Desc(P, id) }
                \cup (IF "xu" \in DOMAIN Act(P, id) THEN Range(Act(P, id).xu) ELSE {})

Task(id, fs) == [id |-> id, fed |-> 0, lost |-> FALSE, fs |-> fs]
InitialQueue(P) ==
    LET RECURSIVE Go(_)
        Go(i) == IF i > Len(P.top) THEN <<>>
                 ELSE LET id == P.top[i] IN
                      (IF Act(P, id).kind = "grpc" /\ Usage(P, id) # {}
                       THEN <<Task("token_usage", Usage(P, id))>> ELSE <<>>)
                      \o <<Task(id, {})>> \o Go(i + 1)
    IN Go(1) \o (IF P.track THEN <<Task(DEV, {})>> ELSE <<>>)

(***************************************************************************)
(* State                                                                   *)
(***************************************************************************)
NoBody == [ch |-> <<>>, fwd |-> 0, eos |-> FALSE, vals |-> EmptyFun]
NoObs  == [ret |-> "", seq |-> <<>>, m |-> <<>>]
Init0(P) ==
    [ pl |-> "none", q |-> <<>>, rest |-> <<>>, cur |-> "", d |-> <<>>, done |-> {},
      term |-> FALSE, tear |-> FALSE, bar |-> 0, vars |-> EmptyFun, val |-> EmptyFun,
      hd |-> IF "hdr" \in DOMAIN P THEN P.hdr ELSE EmptyFun,
      rq |-> NoBody, rs |-> NoBody, inresp |-> FALSE, force |-> FALSE, tok |-> P.tok0,
      h |-> [reqh |-> FALSE, reqeos |-> FALSE, reqp |-> 0, resph |-> FALSE, respeos |-> FALSE,
             respp |-> 0, lr |-> FALSE, lrresp |-> FALSE],
      sp |-> <<>>, g |-> {},
      o |-> NoObs ]

Emit(S, x) == [S EXCEPT !.o.seq = Append(@, x)]
Count(S, m) == [S EXCEPT !.o.m = Append(@, m)]

(***************************************************************************)
(* Spans of a trace                                                        *)
(***************************************************************************)
INFO == 1
DEBUG == 2
TopOf(P, id) == CHOOSE a \in Anc(P, id) : Act(P, a).parent = ""
Leveled(P) == "lvl" \in DOMAIN P
Records(P, lv) == Leveled(P) /\ P.trace /\ P.sampled /\ P.lvl >= lv
\* the top level call an action belongs to, if there is one
TopCall(P, id) == IF id \in {"", DEV, "token_usage"} THEN ""
                  ELSE IF Act(P, TopOf(P, id)).kind = "grpc" THEN TopOf(P, id) ELSE ""
Span4(P, S, lv, at, name, id, st) ==
    IF Records(P, lv)
    THEN [S EXCEPT !.sp = Append(@, <<name, id, IF TopCall(P, at) = "" THEN "R" ELSE "g:" \o TopCall(P, at), st>>)]
    ELSE S
Span(P, S, lv, at, name, id) == Span4(P, S, lv, at, name, id, "")
\* the span of a top level call starts when it is first tried
Open(P, S, id) == IF Records(P, INFO) /\ TopCall(P, id) # "" THEN [S EXCEPT !.g = @ \cup {TopCall(P, id)}] ELSE S
\* ... and ends when nothing is left to do for it
Close(P, S, ids) ==
    LET RECURSIVE Go(_, _)
        Go(Z, X) == IF X = {} THEN Z
                    ELSE LET id == CHOOSE x \in X : TRUE IN
                         Go([Z EXCEPT !.sp = Append(@, <<"grpc", id \o "|" \o Act(P, id).label, "R", "">>),
                                      !.g = @ \ {id}], X \ {id})
    IN Go(S, ids \cap S.g)
Ended(P, S) ==
    LET busy == { TopCall(P, t.id) : t \in Range(S.q) \cup Range(S.rest) }
                \cup { TopCall(P, c.id) : c \in { x \in Range(S.d) : ~x.noop } }
    IN Close(P, S, S.g \ busy)
\* the request is over
EndSpans(P, S) ==
    LET S1 == Close(P, S, S.g) IN
    IF Records(P, INFO) THEN [S1 EXCEPT !.sp = Append(@, <<"kuadrant_filter", P.set, "client", "">>)] ELSE S1

Reply(P, S, x) ==
    LET S1 == Count(Emit(S, <<"R">> \o x \o <<IF P.track THEN "t" ELSE "">>), "denied") IN
    IF S1.h.lr THEN S1
    ELSE [S1 EXCEPT !.h.lr = TRUE, !.h.lrresp = S1.h.resph]
Reply500(P, S, id) == Reply(P, Span(P, S, INFO, id, "send_reply", "500"), <<"500", "">>)

(***************************************************************************)
(* Expressions                                                             *)
(***************************************************************************)
V(x) == [s |-> "v", v |-> x]
Pend == [s |-> "pend", v |-> ""]
Err  == [s |-> "err", v |-> ""]

Alive(P, S) ==
    LET roots == { t.id : t \in Range(S.q) } \cup { t.id : t \in Range(S.rest) } \cup {S.cur}
        calls == { x.id : x \in { y \in Range(S.d) : ~y.noop } }
    IN UNION { IF id \in {"", DEV, "token_usage"} THEN {} ELSE Desc(P, id) : id \in roots }
       \cup UNION { Desc(P, id) \ {id} : id \in calls }
Reserved(P, S) == { Act(P, id).path : id \in { x \in Alive(P, S) : Act(P, x).kind = "store" } }

NOTHING == "~nothing"
NOKEY   == "~nokey"
Leaf(P, S, id, e) ==
    CASE e.k = "C" -> V(e.f)
      [] e.k = "T" -> V(TRUE)
      [] e.k = "F" -> V(FALSE)
      [] e.k = "ERR" -> Err
      [] e.k = "BAD" -> V(INT)
      [] e.k = "RQB" -> IF e.f \in DOMAIN S.rq.vals THEN V(S.rq.vals[e.f]) ELSE Pend
      [] e.k = "RSB" -> IF e.f \in DOMAIN S.rs.vals THEN V(S.rs.vals[e.f]) ELSE Pend
      [] e.k = "ST"  -> IF e.f \in DOMAIN S.val THEN V(S.val[e.f])
                        ELSE IF e.f \in Reserved(P, S) THEN Pend
                        ELSE IF P.root[e.f] # "" /\ \E x \in DOMAIN S.val \cup Reserved(P, S) : P.root[x] = P.root[e.f]
                        THEN V(NULL) ELSE Err
      \* what the reply to a call of this action, or of one it is nested in, was
      [] e.k = "VAR" -> IF e.f \in DOMAIN S.vars /\ e.f \in Anc(P, id)
                        THEN V(IF S.vars[e.f].k = "over" THEN "over" ELSE "ok") ELSE Err
      [] e.k = "VARIN" -> IF e.f \in DOMAIN S.vars /\ e.f \in Anc(P, id) THEN V(S.vars[e.f].k \in Range(e.w)) ELSE Err
      [] e.k = "TOK" -> IF e.f \in DOMAIN S.vars /\ e.f \in Anc(P, id) THEN V(S.vars[e.f].t) ELSE Err
      \* attributes of the request; the port numbers; its headers
      [] e.k \in {"ATTR", "PORT"} -> IF P.env[e.f] = "~err" THEN Err ELSE V(P.env[e.f])
      [] e.k = "HDRS" -> V("x-auth:" \o (IF "x-auth" \in DOMAIN S.hd THEN S.hd["x-auth"] ELSE ""))
      [] e.k = "HDR" -> IF e.f \in DOMAIN S.hd THEN V(S.hd[e.f]) ELSE Err
      \* a field of the metadata an authorization service returned
      [] e.k = "AU" -> IF "auth" \in DOMAIN S.val THEN (IF S.val["auth"] = NOKEY THEN Err ELSE V(S.val["auth"]))
                       ELSE IF "auth" \in Reserved(P, S) THEN Pend ELSE Err

\* what an expression names must be there before any of it is evaluated
Early(P, S, id, e) ==
    LET ls == Leaves(e)
        out(x) == Leaf(P, S, id, x) IN
    IF \E x \in ls : x.k \in {"ATTR", "PORT"} /\ out(x).s = "err" THEN Err
    ELSE IF \E x \in ls : out(x).s = "pend" THEN Pend
    ELSE V("")

\* a comparison with a constant
Cmp(P, S, id, e) ==
    LET r == Leaf(P, S, id, e) IN
    IF e.k \in {"T", "F", "VARIN"} \/ r.s # "v" THEN r
    ELSE IF e.k = "BAD" THEN Err
    ELSE V(IF r.v \in {NULL, INT} THEN FALSE ELSE r.v = e.w)

\* an operand that decides does, whatever the errors of the others
RECURSIVE Bool(_, _, _, _)
Bool(P, S, id, e) ==
    CASE e.k \in {"AND", "OR"} ->
            LET rs == [i \in DOMAIN e.s |-> Bool(P, S, id, e.s[i])]
                z == e.k = "OR" IN
            IF \E i \in DOMAIN rs : rs[i].s = "v" /\ rs[i].v = z THEN V(z)
            ELSE IF \E i \in DOMAIN rs : rs[i].s # "v" THEN Err ELSE V(~z)
      [] OTHER -> Cmp(P, S, id, e)

Test(P, S, id) ==
    LET e == Act(P, id).pred
        x == Early(P, S, id, e) IN
    IF e.k = "ERR" THEN Err ELSE IF x.s # "v" THEN x ELSE Bool(P, S, id, e)

RECURSIVE Text(_, _, _, _)
Text(P, S, id, e) ==
    CASE e.k = "CAT" ->
            LET RECURSIVE Go(_)
                Go(i) == IF i > Len(e.s) THEN V("")
                         ELSE LET r == Text(P, S, id, e.s[i])
                                  q == Go(i + 1) IN
                              IF r.s # "v" THEN r ELSE IF q.s # "v" THEN q ELSE V(r.v \o q.v)
            IN Go(1)
      [] e.k = "IF" ->
            LET c == Bool(P, S, id, e.c) IN
            IF c.s # "v" THEN c ELSE IF c.v THEN Text(P, S, id, e.t) ELSE V("")
      [] e.k = "NUM" ->
            IF e.e.k = "PORT" \/ (e.e.k = "C" /\ e.e.num) THEN Text(P, S, id, e.e) ELSE Err
      [] e.k = "BYKIND" ->
            IF e.f \in DOMAIN S.vars /\ S.vars[e.f].k \in DOMAIN e.alt
            THEN Text(P, S, id, e.alt[S.vars[e.f].k]) ELSE V(NOTHING)
      [] OTHER -> LET r == Leaf(P, S, id, e) IN IF r.s = "v" /\ r.v \in {NULL, INT} THEN Err ELSE r

\* the value of an expression; as a string
Eval(P, S, id, e) == 
    LET x == Early(P, S, id, e) IN
    IF e.k \in {"CAT", "IF", "NUM", "BYKIND"} THEN (IF x.s # "v" THEN x ELSE Text(P, S, id, e)) ELSE Leaf(P, S, id, e)
Str(P, S, id, e) ==
    LET x == Early(P, S, id, e) IN
    IF e.k = "ERR" THEN Err ELSE IF x.s # "v" THEN x ELSE Text(P, S, id, e)

\* an expression that will never become available
Hopeless(S, e) == \E x \in Leaves(e) : (x.k = "RQB" /\ S.rq.eos) \/ (x.k = "RSB" /\ S.rs.eos)

(***************************************************************************)
(* Tasks.  Outcome: [s, out, t]                                            *)
(***************************************************************************)
Out(S, o, t) == [s |-> S, out |-> o, t |-> t]

\* the failure mode of the innermost service call an action belongs to
Mode(P, id) ==
    IF Act(P, id).kind = "grpc" THEN Act(P, id).mode
    ELSE IF Act(P, id).parent = "" THEN "none" ELSE Act(P, Act(P, id).parent).mode

Failed(P, S, t) ==
    LET m == Mode(P, t.id) IN
    CASE m = "none"  -> Out(S, "failed", t)
      [] m = "allow" -> Out(Count(S, "errors"), "done", t)
      [] m = "deny"  -> Out(Reply500(P, Count(S, "errors"), t.id), "term", t)

Terminal500(P, S, t) ==
    IF Act(P, t.id).term THEN Out(Reply500(P, S, t.id), "term", t) ELSE Out(S, "done", t)

ApplyGrpc(P, S0, t) ==
    LET a == Act(P, t.id)
        p == Test(P, S0, t.id)
        m == Str(P, S0, t.id, a.val)
        S == IF p.s = "v" /\ p.v THEN Span(P, S0, DEBUG, t.id, "grpc_request", t.id) ELSE S0
        wait(e) == IF Hopeless(S, e) THEN Failed(P, S, t) ELSE Out(S, "requeue", t)
    IN
    CASE p.s = "pend" -> wait(a.pred)
      [] p.s = "err"  -> Failed(P, S, t)
      [] p.s = "v" /\ ~p.v -> Out(S, "done", t)
      [] p.s = "v" /\ p.v /\ m.s = "pend" -> wait(a.val)
      [] p.s = "v" /\ p.v /\ m.s = "err"  -> Failed(P, S, t)
      [] p.s = "v" /\ p.v /\ m.s = "v" /\ a.fault = "nodesc" -> Failed(P, S, t)
      [] p.s = "v" /\ p.v /\ m.s = "v" /\ a.fault = "dispatch" ->
            Failed(P, Emit(S, <<"F", t.id, m.v>>), t)
      [] OTHER ->
            Out([Emit(S, <<"C", ToString(S.tok), t.id, m.v>>) EXCEPT
                    !.d = Append(@, [tok |-> S.tok, id |-> t.id, noop |-> FALSE, guard |-> a.guard]),
                    !.bar = IF a.guard THEN @ + 1 ELSE @,
                    !.tok = @ + 1], "defer", t)

ApplyDeny(P, S, t) ==
    LET a == Act(P, t.id)
        p == Test(P, S, t.id)
        m == IF a.val.k = "BAD" THEN Err ELSE Str(P, S, t.id, a.val)
    IN
    CASE p.s = "pend" -> Out(S, "requeue", t)
      [] p.s = "err" -> Failed(P, S, t)
      [] p.s = "v" /\ ~p.v -> Out(S, "done", t)
      [] p.s = "v" /\ p.v /\ m.s # "v" -> Failed(P, Span(P, S, INFO, t.id, "send_reply", ""), t)
      [] OTHER -> Out(Reply(P, IF Leveled(P) THEN Span(P, S, INFO, t.id, "send_reply", a.status) ELSE S, <<t.id, m.v>>),
                      IF a.term THEN "term" ELSE "done", t)

ApplyHeaders(P, S, t) ==
    LET a == Act(P, t.id)
        p == Test(P, S, t.id)
        m == Str(P, S, t.id, a.val)
    IN
    CASE p.s = "pend" -> Out(S, "requeue", t)
      [] p.s = "err" -> Failed(P, S, t)
      [] p.s = "v" /\ ~p.v -> Out(S, "done", t)
      [] p.s = "v" /\ p.v /\ m.s = "pend" -> Out(S, "requeue", t)
      [] p.s = "v" /\ p.v /\ m.s = "err" -> Failed(P, S, t)
      [] p.s = "v" /\ p.v /\ m.s = "v" /\ m.v = NOTHING -> Out(S, "done", t)
      [] p.s = "v" /\ p.v /\ m.s = "v" /\ m.v # NOTHING /\ a.tgt = "resp" /\ ~S.h.resph -> Out(S, "requeue", t)
      [] p.s = "v" /\ p.v /\ m.s = "v" /\ m.v # NOTHING /\ ~(a.tgt = "resp" /\ ~S.h.resph) /\ ("set" \o a.tgt) \in Range(P.fail) -> Failed(P, Span(P, S, DEBUG, t.id, "headers", a.tgt), t)
      [] OTHER -> Terminal500(P, LET S1 == Emit(Span(P, S, DEBUG, t.id, "headers", a.tgt), <<"H", a.tgt, t.id, m.v>>) IN
                                  IF "hn" \in DOMAIN a /\ a.tgt = "req" THEN [S1 EXCEPT !.hd = Upd(@, a.hn, m.v)] ELSE S1, t)

ApplyTrack(P, S, t) ==
    IF ~S.h.resph THEN Out(S, "requeue", t)
    ELSE IF "setresp" \in Range(P.fail) THEN Out(Span(P, S, DEBUG, DEV, "headers", "resp"), "failed", t)
    ELSE Out(Emit(Span(P, S, DEBUG, DEV, "headers", "resp"), <<"H", "resp", "track", "">>), "done", t)

ApplyFail(P, S, t) ==
    LET a == Act(P, t.id)
        p == Test(P, S, t.id)
    IN
    CASE p.s = "pend" -> IF Hopeless(S, a.pred) THEN Failed(P, S, t) ELSE Out(S, "requeue", t)
      [] p.s = "err" -> Failed(P, S, t)
      [] p.s = "v" /\ ~p.v -> Out(S, "done", t)
      [] OTHER -> Terminal500(P, IF a.term THEN Count(S, "errors") ELSE S, t)

(***************************************************************************)
(* Bodies.  A chunk: [set: field -> value completed by it, n: 0 if empty,  *)
(* bad: not JSON, close: the document ends in it, eos].                    *)
(***************************************************************************)
Got(ch, n) ==
    LET RECURSIVE Go(_)
        Go(i) == IF i > n THEN EmptyFun ELSE ch[i].set @@ Go(i + 1)
    IN Go(1)
NonEmpty(ch, a, b) == { i \in a..b : i \in DOMAIN ch /\ ch[i].n > 0 }
MaxOf(a, b) == IF a > b THEN a ELSE b

\* feed a task what it has not read: [t, ok]
Feed(B, t) ==
    LET lost == t.lost \/ NonEmpty(B.ch, t.fed + 1, B.fwd) # {}
        new  == NonEmpty(B.ch, MaxOf(t.fed, B.fwd) + 1, Len(B.ch))
    IN [new |-> new, t |-> [t EXCEPT !.lost = lost, !.fed = Len(B.ch)]]

ApplyStore(P, S, t0) ==
    LET a   == Act(P, t0.id)
        src == Source(P, t0.id)
        B   == IF src = "req" THEN S.rq ELSE S.rs
        fs  == IF src = "req" THEN Fields(P, t0.id, "RQB") ELSE Fields(P, t0.id, "RSB")
        \* complete before this feed
        was == ~t0.lost /\ fs \subseteq DOMAIN Got(B.ch, t0.fed)
        fd  == Feed(B, t0)
        now == ~fd.t.lost /\ fs \subseteq DOMAIN Got(B.ch, fd.t.fed)
        bad == fd.new # {} /\ ~was /\ (fd.t.lost \/ \E i \in fd.new : B.ch[i].bad)
        done == was \/ now
        S1  == IF src = "none" \/ ~done THEN S
               ELSE LET vs == [f \in fs |-> Got(B.ch, fd.t.fed)[f]] IN
                    IF src = "req" THEN [S EXCEPT !.rq.vals = vs @@ @] ELSE [S EXCEPT !.rs.vals = vs @@ @]
        t   == IF src = "none" THEN t0 ELSE fd.t
        p   == Test(P, S1, t.id)
        m   == Eval(P, S1, t.id, a.val)
    IN
    CASE src = "resp" /\ ~S.h.resph -> Out(S, "requeue", t0)
      [] src # "none" /\ ~(src = "resp" /\ ~S.h.resph)
            /\ NonEmpty(B.ch, 1, Len(B.ch)) = {} /\ ~B.eos -> Out(S, "requeue", t0)
      [] src # "none" /\ ~(src = "resp" /\ ~S.h.resph)
            /\ (NonEmpty(B.ch, 1, Len(B.ch)) # {} \/ B.eos) /\ (bad \/ (B.eos /\ ~done)) -> Failed(P, S, t)
      [] OTHER ->
         LET Z == Span(P, S1, DEBUG, t.id, "store", "") IN
         CASE p.s = "pend" -> Out(S1, "requeue", t)
           [] p.s = "err" -> Failed(P, S1, t)
           [] p.s = "v" /\ ~p.v -> Out(S1, "done", t)
           [] p.s = "v" /\ p.v /\ m.s = "pend" -> Out(Z, "requeue", t)
           [] p.s = "v" /\ p.v /\ m.s = "err" -> Failed(P, Z, t)
           [] p.s = "v" /\ p.v /\ m.s = "v" /\ a.export /\ "setprop" \in Range(P.fail) -> Failed(P, Z, t)
           [] OTHER ->
              LET S2 == IF a.export THEN Emit(Z, <<"P", a.path, m.v>>) ELSE Z
                  S3 == [S2 EXCEPT !.val = Upd(@, a.path, m.v)]
              IN Terminal500(P, S3, t)

\* reads the whole response body, then publishes the fields it was created for
ApplyUsage(P, S0, t0) ==
    LET S == Span(P, S0, INFO, t0.id, "token_usage", "")
        fd == Feed(S.rs, t0)
        ch == S.rs.ch
        valid == ~fd.t.lost /\ (\A i \in DOMAIN ch : ~ch[i].bad) /\ (\E i \in DOMAIN ch : ch[i].close)
        vs == [f \in t0.fs \cap DOMAIN Got(ch, Len(ch)) |-> Got(ch, Len(ch))[f]]
    IN IF ~S.h.resph THEN Out(S, "requeue", t0)
       ELSE IF ~S.rs.eos THEN Out(S, "requeue", fd.t)
       ELSE Out(IF valid THEN [S EXCEPT !.rs.vals = vs @@ @] ELSE S, "done", fd.t)

Apply(P, S, t) ==
    IF t.id = DEV THEN ApplyTrack(P, S, t)
    ELSE IF t.id = "token_usage" THEN ApplyUsage(P, S, t)
    ELSE CASE Act(P, t.id).kind = "grpc" -> ApplyGrpc(P, S, t)
           [] Act(P, t.id).kind = "deny" -> ApplyDeny(P, S, t)
           [] Act(P, t.id).kind = "headers" -> ApplyHeaders(P, S, t)
           [] Act(P, t.id).kind = "store" -> ApplyStore(P, S, t)
           [] Act(P, t.id).kind = "fail" -> ApplyFail(P, S, t)

(***************************************************************************)
(* The pipeline                                                            *)
(***************************************************************************)
RECURSIVE Process(_, _)
Process(P, S) ==
    IF S.rest = <<>> THEN S
    ELSE LET t  == Head(S.rest)
             S1 == [S EXCEPT !.rest = Tail(@), !.cur = t.id]
         IN IF ~(Deps(P, t.id) \subseteq S.done)
            THEN Process(P, [S1 EXCEPT !.q = Append(@, t), !.cur = ""])
            ELSE LET r == Apply(P, Open(P, S1, t.id), t)
                     Z == [r.s EXCEPT !.cur = ""]
                 IN CASE r.out = "done"    -> Process(P, [Z EXCEPT !.done = @ \cup {t.id}])
                      [] r.out = "failed"  -> Process(P, [Z EXCEPT !.done = @ \cup {t.id}])
                      [] r.out = "defer"   -> Process(P, Z)
                      [] r.out = "requeue" -> Process(P, [Z EXCEPT !.q = Append(@, r.t)])
                      [] r.out = "term"    -> [Z EXCEPT !.q = <<>>, !.rest = <<>>, !.term = TRUE]

Teardown(P, S) ==
    LET S0 == [S EXCEPT !.d = [i \in DOMAIN @ |-> [@[i] EXCEPT !.noop = TRUE]]]
        S1 == IF S.tear \/ ~P.trace THEN S0 ELSE EndSpans(P, S0)
    IN
    IF S.tear \/ ~P.trace THEN [S1 EXCEPT !.tear = TRUE]
    ELSE IF Leveled(P) /\ ~P.pend /\ S1.sp = <<>> THEN [S1 EXCEPT !.tear = TRUE]
    ELSE IF Leveled(P) /\ P.tfault THEN [Emit(S1, <<"XF">>) EXCEPT !.tear = TRUE]
    ELSE [Emit(S1, <<"X", ToString(S.tok)>>) EXCEPT !.tear = TRUE, !.tok = @ + 1,
            !.d = Append(@, [tok |-> S.tok, id |-> "teardown", noop |-> TRUE, guard |-> FALSE])]

EvalAll(P, S) ==
    LET S1 == Process(P, [S EXCEPT !.rest = S.q, !.q = <<>>])
        S2 == IF S1.term /\ ~S.term THEN Teardown(P, S1)
              ELSE IF S1.q = <<>> /\ S1.d = <<>> THEN Teardown(P, S1)
              ELSE Ended(P, S1)
    IN IF S2.q = <<>> /\ S2.d = <<>> THEN [S2 EXCEPT !.pl = "gone"] ELSE S2

TokIx(S, tok) == { i \in DOMAIN S.d : S.d[i].tok = tok }
Without(sq, i) == SubSeq(sq, 1, i - 1) \o SubSeq(sq, i + 1, Len(sq))

Digest(P, S, tok, res) ==
    IF TokIx(S, tok) = {} THEN EvalAll(P, S)
    ELSE
    LET i  == CHOOSE j \in TokIx(S, tok) : TRUE
        x  == S.d[i]
        S1 == LET Z == [S EXCEPT !.d = Without(@, i), !.bar = IF x.guard THEN @ - 1 ELSE @,
                                 !.done = @ \cup {x.id}]
              IN IF x.noop THEN Z
                 ELSE Span4(P, Z, DEBUG, x.id, "grpc_response", x.id \o "/" \o ToString(tok), IF res = "status" \/ (res = "garbage" /\ Act(P, x.id).reply # <<>>) THEN "E" ELSE "")
        t  == Task(x.id, {})
        f  == Failed(P, S1, t)
        kids == IF x.noop THEN <<>> ELSE Act(P, x.id).reply
    IN IF x.noop THEN EvalAll(P, S1)
       ELSE IF res = "status" \/ (res = "garbage" /\ kids # <<>>)
       THEN IF f.out = "term"
            THEN EvalAll(P, Teardown(P, [f.s EXCEPT !.q = <<>>, !.term = TRUE]))
            ELSE EvalAll(P, f.s)
       ELSE IF kids = <<>> THEN EvalAll(P, S1)
       ELSE EvalAll(P, [S1 EXCEPT !.vars = Upd(@, x.id, [k |-> res, t |-> ToString(tok)]),
                                  !.q = [j \in DOMAIN kids |-> Task(kids[j], {})] \o @])

(***************************************************************************)
(* The filter                                                              *)
(***************************************************************************)
RECURSIVE WaitsForCall(_, _, _)
WaitsForCall(P, S, id) ==
    \E dep \in Deps(P, id) :
        \/ \E x \in Range(S.d) : x.id = dep
        \/ \E t \in Range(S.q) : t.id = dep /\ WaitsForCall(P, S, dep)
HeldGuard(P, S) ==
    \E t \in Range(S.q) : /\ t.id \notin {DEV, "token_usage"}
                          /\ Act(P, t.id).kind = "grpc" /\ Act(P, t.id).guard
                          /\ WaitsForCall(P, S, t.id)
ShouldPause(P, S) == S.pl = "run" /\ (S.bar > 0 \/ HeldGuard(P, S))

Ret(S, pause) == [S EXCEPT !.o.ret = IF pause THEN "Pause" ELSE "Continue"]
Begin(S) == [S EXCEPT !.o = NoObs, !.sp = <<>>]

CanReqH(S)  == ~S.h.reqh
CanReqB(S)  == S.h.reqh /\ ~S.h.reqeos /\ ~S.h.lr /\ ~S.h.resph /\ S.h.reqp # 1
CanRespH(S) == /\ S.h.reqh /\ ~S.h.resph /\ ~(S.h.lr /\ S.h.lrresp)
               /\ (S.h.lr \/ S.h.reqp = 0)
CanRespB(S) == /\ S.h.resph /\ ~S.h.respeos /\ ~(S.h.lr /\ S.h.lrresp) /\ S.h.respp # 1

ReqH(P, S0, eos) ==
    LET S1 == Count([Begin(S0) EXCEPT !.pl = "run", !.q = InitialQueue(P), !.rq.eos = eos,
                                      !.h.reqh = TRUE, !.h.reqeos = eos], "hits")
        S2 == EvalAll(P, S1)
        pz == ShouldPause(P, S2)
    IN Ret([S2 EXCEPT !.h.reqp = IF pz /\ ~S2.h.lr THEN 1 ELSE 0], pz)

ReqB(P, S0, c) ==
    LET S1 == [Begin(S0) EXCEPT !.h.reqeos = c.eos, !.rq.ch = Append(@, c), !.rq.eos = c.eos]
        S2 == IF S0.pl = "run" THEN EvalAll(P, S1) ELSE S1
        pz == ShouldPause(P, S2)
    IN IF pz THEN Ret([S2 EXCEPT !.h.reqp = 2], TRUE)
       ELSE Ret([S2 EXCEPT !.h.reqp = 0, !.rq.fwd = Len(S2.rq.ch)], FALSE)

RespH(P, S0, eos) ==
    LET S1 == Count([Begin(S0) EXCEPT !.inresp = TRUE, !.h.resph = TRUE, !.h.respeos = eos], "allowed")
        S2 == IF S0.pl = "run" THEN EvalAll(P, S1) ELSE S1
        pz == ShouldPause(P, S2)
    IN Ret([S2 EXCEPT !.h.respp = IF pz THEN 1 ELSE 0], pz)

RespB(P, S0, c) ==
    LET S1 == [Begin(S0) EXCEPT !.h.respeos = c.eos, !.rs.ch = Append(@, c), !.rs.eos = c.eos]
        S2 == IF S0.pl = "run" THEN EvalAll(P, S1) ELSE S1
        pz == ShouldPause(P, S2)
        hold == ~pz /\ S2.pl = "run" /\ S2.d # <<>> /\ c.eos
    IN IF pz \/ hold THEN Ret([S2 EXCEPT !.h.respp = 2, !.force = @ \/ hold], TRUE)
       ELSE Ret([S2 EXCEPT !.h.respp = 0, !.rs.fwd = Len(S2.rs.ch)], FALSE)

Answer(P, S0, tok, res) ==
    IF S0.pl # "run" THEN Begin(S0)
    ELSE
    LET S2 == Digest(P, Begin(S0), tok, res)
        pz == ShouldPause(P, S2)
        rsm == IF S2.pl = "run"
               THEN ~pz /\ (~S2.term \/ S2.inresp) /\ ~(S2.rs.eos /\ S2.d # <<>>)
               ELSE ~S2.term \/ S2.force \/ S2.inresp
    IN IF ~rsm THEN S2
       ELSE IF S2.inresp
       THEN [Emit(S2, <<"U", "resp">>) EXCEPT !.h.respp = 0,
                !.rs.fwd = IF S2.pl = "run" THEN Len(S2.rs.ch) ELSE @]
       ELSE [Emit(S2, <<"U", "req">>) EXCEPT !.h.reqp = 0,
                !.rq.fwd = IF S2.pl = "run" THEN Len(S2.rq.ch) ELSE @]

\* an event as recorded: [ev, eos, chunk, tok, res]
Possible(S, e) ==
    CASE e.ev = "reqh"  -> CanReqH(S)
      [] e.ev = "reqb"  -> CanReqB(S)
      [] e.ev = "resph" -> CanRespH(S)
      [] e.ev = "respb" -> CanRespB(S)
      [] e.ev = "grpc"  -> TRUE
Step(P, S, e) ==
    CASE e.ev = "reqh"  -> ReqH(P, S, e.eos)
      [] e.ev = "reqb"  -> ReqB(P, S, e.chunk)
      [] e.ev = "resph" -> RespH(P, S, e.eos)
      [] e.ev = "respb" -> RespB(P, S, e.chunk)
      [] e.ev = "grpc"  -> Answer(P, S, e.tok, e.res)
=============================================================================
