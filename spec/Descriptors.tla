----------------------------- MODULE Descriptors -----------------------------
(***************************************************************************)
(* How the filter learns the message types of the services it calls.       *)
(*                                                                         *)
(* A program P read from JSON:                                             *)
(*   P.keys  sequence of [n, emb]: the services, by name; emb: the filter  *)
(*           brings their types with it                                    *)
(*   P.cfgs  sequence of [valid, ds, svcs, gate, acts]: ds the descriptor  *)
(*           service; svcs the keys it names; gate: a call that is         *)
(*           answered before anything else is done; acts a sequence of     *)
(*           [key, ext, deny]: calls, all made at once (or when the gate   *)
(*           is answered); ext: the message has a field only version 2 of  *)
(*           the types has; deny: failure mode                             *)
(* What is known of a service: "absent", "emb", "miss", "wait", "1", "2".  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(f) == { f[x] : x \in DOMAIN f }
Upd(f, k, v) == (k :> v) @@ f
EmptyFun == [x \in {} |-> 0]

NoObs == [ret |-> "", seq |-> <<>>, m |-> <<>>, ticks |-> <<>>]
KeyNames(P) == { k.n : k \in Range(P.keys) }
Emb(P, n) == \E k \in Range(P.keys) : k.n = n /\ k.emb
Init0(P) ==
    [ st |-> [n \in KeyNames(P) |-> "absent"], by |-> EmptyFun,    \* by: key -> token, while it waits
      ds |-> "", cfg |-> 0, tick |-> FALSE, tok |-> P.tok0,
      roots |-> {}, used |-> {},  \* fetches without an answer; tokens of fetches so far
      ctx |-> EmptyFun, rq |-> EmptyFun,
      calls |-> EmptyFun,                 \* token of a call -> [ctx, i], i = 0: the gate
      o |-> NoObs ]

Emit(S, x) == [S EXCEPT !.o.seq = Append(@, x)]
Count(S, m) == [S EXCEPT !.o.m = Append(@, m)]

(***************************************************************************)
(* Fetching                                                                *)
(***************************************************************************)
Missing(P, S) == LET ks == SelectSeq(P.keys, LAMBDA k : S.st[k.n] = "miss") IN [i \in DOMAIN ks |-> ks[i].n] \o <<>>
Fetch(P, S, fails) ==
    LET ms == Missing(P, S) IN
    IF ms = <<>> \/ S.ds = "" THEN S
    ELSE IF S.ds \in Range(fails) THEN Emit(S, <<"F", S.ds, ms>>)
    ELSE [Emit(S, <<"D", ToString(S.tok), S.ds, ms>>) EXCEPT
            !.st = [n \in DOMAIN @ |-> IF n \in Range(ms) THEN "wait" ELSE @[n]],
            !.by = [n \in Range(ms) |-> S.tok] @@ @,
            !.roots = @ \cup {S.tok}, !.used = @ \cup {S.tok}, !.tok = @ + 1]

\* the services a configuration names, up to the point it was found to be wrong
Expect(P, S, ns) == [S EXCEPT !.st = [n \in DOMAIN @ |-> IF n \in Range(ns) /\ @[n] = "absent"
                                                         THEN IF Emb(P, n) THEN "emb" ELSE "miss" ELSE @[n]]]
Dynamic(S) == \E n \in DOMAIN S.st : S.st[n] \notin {"absent", "emb"}
SetTick(S, on, fails) ==
    IF on = S.tick \/ fails THEN S
    ELSE [S EXCEPT !.tick = on, !.o.ticks = Append(@, IF on THEN 2000 ELSE 0)]

Conf(P, S0, e) ==
    LET c == P.cfgs[e.i]
        S1 == Count(Expect(P, [S0 EXCEPT !.o = NoObs], c.svcs), "configs")
        S2 == Fetch(P, [S1 EXCEPT !.cfg = e.i, !.ds = c.ds], e.fails)
    IN IF ~c.valid THEN [S1 EXCEPT !.o.ret = "false"]
       ELSE [SetTick(S2, Dynamic(S2), e.ft) EXCEPT !.o.ret = "true"]
Tick(P, S, e) == Fetch(P, [S EXCEPT !.o = NoObs], e.fails)

\* what: "1", "2": types of that version; anything else cannot be used
RECURSIVE Learn(_, _)
Learn(st, ds) ==
    IF ds = <<>> THEN st
    ELSE Learn(IF Head(ds).what \in {"1", "2"} /\ st[Head(ds).key] # "emb" THEN [st EXCEPT ![Head(ds).key] = Head(ds).what] ELSE st,
               Tail(ds))
Asked(S, tok) == { n \in DOMAIN S.st : S.st[n] = "wait" /\ S.by[n] = tok }
Reply(P, S0, e) ==
    LET S == [S0 EXCEPT !.o = NoObs, !.roots = @ \ {e.tok}]
        st1 == IF e.how # "list" \/ Asked(S, e.tok) = {} THEN S.st ELSE Learn(S.st, e.ds)
    IN [S EXCEPT !.st = [n \in DOMAIN st1 |-> IF st1[n] = "wait" /\ S.by[n] = e.tok THEN "miss" ELSE st1[n]]]

(***************************************************************************)
(* Using                                                                   *)
(***************************************************************************)
Version(S, n) == IF S.st[n] \in {"1", "2"} THEN S.st[n] ELSE "0"
\* the types a request knows are those known when it starts; the last one counts
RECURSIVE LastOf(_, _)
LastOf(S, acts) ==
    IF acts = <<>> THEN "0"
    ELSE LET r == LastOf(S, Tail(acts)) IN
         IF r # "0" THEN r ELSE IF S.st[Head(acts).key] = "emb" THEN "0" ELSE Version(S, Head(acts).key)

Fails(S, c, a) ==
    LET S1 == Count(S, "errors") IN
    IF a.deny THEN [Emit(Count(S1, "denied"), <<"R", "500">>) EXCEPT !.rq[c].term = TRUE] ELSE S1
CanCall(P, S, c, a) ==
    \/ Emb(P, a.key)
    \/ /\ Version(S, a.key) # "0"
       /\ S.rq[c].env # "0"
       /\ a.ext => S.rq[c].env = "2"
RECURSIVE Acts(_, _, _, _)
Acts(P, S, c, i) ==
    LET acts == P.cfgs[S.rq[c].cfg].acts IN
    IF i > Len(acts) \/ S.rq[c].term THEN S
    ELSE LET a == acts[i] IN
         IF ~CanCall(P, S, c, a) THEN Acts(P, Fails(S, c, a), c, i + 1)
         ELSE Acts(P, [Emit(S, <<"C", ToString(S.tok), a.key,
                                 IF a.ext /\ ~Emb(P, a.key) /\ Version(S, a.key) = "2" THEN "e" ELSE "">>) EXCEPT
                          !.calls = Upd(@, S.tok, [ctx |-> c, i |-> i]), !.tok = @ + 1], c, i + 1)

ReqH(P, S0, e) ==
    LET S == [S0 EXCEPT !.o = NoObs]
        n == S.ctx[e.ctx] IN
    IF n = 0 THEN [Count(S, "misses") EXCEPT !.o.ret = "Continue", !.rq = Upd(@, e.ctx, [cfg |-> 0, env |-> "0", term |-> FALSE])]
    ELSE LET c == P.cfgs[n]
             S1 == Count([S EXCEPT !.rq = Upd(@, e.ctx, [cfg |-> n, env |-> LastOf(S, c.acts), term |-> FALSE])], "hits")
         IN IF c.gate THEN [Emit(S1, <<"C", ToString(S.tok), "gate", "">>) EXCEPT
                               !.calls = Upd(@, S.tok, [ctx |-> e.ctx, i |-> 0]), !.tok = @ + 1, !.o.ret = "Pause"]
            ELSE [Acts(P, S1, e.ctx, 1) EXCEPT !.o.ret = "Continue"]

\* the answer to a call; one that was answered already is not answered again
Answer(P, S0, e) ==
    LET S == [S0 EXCEPT !.o = NoObs, !.calls = [t \in DOMAIN @ \ {e.tok} |-> @[t]]]
        x == S0.calls[e.tok]
        c == x.ctx
        a == P.cfgs[S.rq[c].cfg].acts[x.i]
    IN IF S.rq[c].term THEN S
       ELSE IF x.i = 0
            THEN IF e.how = "status" THEN [Emit(Count(Count(S, "errors"), "denied"), <<"R", "500">>) EXCEPT !.rq[c].term = TRUE]
                 ELSE Acts(P, S, c, 1)
            ELSE IF e.how # "ok" THEN Fails(S, c, a)
            ELSE Emit(S, <<"H", ToString(x.i), IF Emb(P, a.key) THEN "ok" ELSE "t" \o ToString(e.tok)>>)

(***************************************************************************)
(* Events: [ev, i, fails, ft, tok, how, ds, ctx]                           *)
(***************************************************************************)
Possible(S, e) ==
    CASE e.ev = "conf" -> TRUE
      [] e.ev = "tick" -> TRUE
      [] e.ev = "fetched" -> TRUE
      [] e.ev = "new" -> e.ctx \notin DOMAIN S.ctx
      [] e.ev = "reqh" -> e.ctx \in DOMAIN S.ctx /\ e.ctx \notin DOMAIN S.rq
      [] e.ev = "answer" -> e.tok \in DOMAIN S.calls
Step(P, S, e) ==
    CASE e.ev = "conf" -> Conf(P, S, e)
      [] e.ev = "tick" -> Tick(P, S, e)
      [] e.ev = "fetched" -> Reply(P, S, e)
      [] e.ev = "new" -> [S EXCEPT !.ctx = Upd(@, e.ctx, S.cfg), !.o = NoObs]
      [] e.ev = "reqh" -> ReqH(P, S, e)
      [] e.ev = "answer" -> Answer(P, S, e)
=============================================================================
