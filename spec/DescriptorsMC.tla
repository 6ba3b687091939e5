---------------------------- MODULE DescriptorsMC ----------------------------
(***************************************************************************)
(* Every history of configurations, ticks, answers and requests up to a    *)
(* bound, for small generated programs.  The property is judged by a       *)
(* monitor G, which sees only the events and what the filter does.         *)
(***************************************************************************)
EXTENDS Descriptors, Integers, Json, IOUtils
ASSUME TLCSet(2, JsonDeserialize(IOEnv.PROG_FILE))
Progs == TLCGet(2)
ASSUME TLCSet(3, IF "DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.DEPTH) ELSE 6)
VARIABLES pid, S, G, hist
vars == <<pid, S, G, hist>>

\* open: fetch -> keys it asked for; named: services of configurations so far; got: types answered;
\* cfg: last accepted; at/req: configuration of a stream, types got when its request started; left: calls not yet made
Init == /\ pid \in DOMAIN Progs /\ S = Init0(Progs[pid]) /\ hist = <<>>
        /\ G = [open |-> EmptyFun, named |-> {}, got |-> EmptyFun, cfg |-> 0, at |-> EmptyFun, had |-> EmptyFun,
                made |-> EmptyFun, viol |-> {}]

Cfg(i) == Progs[pid].cfgs[i]
Dyn(ns) == { n \in ns : ~Emb(Progs[pid], n) }
\* the services the filter still has to ask for
Needed(H) == { n \in Dyn(H.named) : n \notin DOMAIN H.got /\ \A t \in DOMAIN H.open : n \notin H.open[t] }
Fetches(o) == { x \in Range(o.seq) : x[1] = "D" }
Refused(o) == { x \in Range(o.seq) : x[1] = "F" }
RECURSIVE Num(_, _)
Num(s, n) == IF ToString(n) = s THEN n ELSE Num(s, n + 1)

V(H, x) == [H EXCEPT !.viol = @ \cup {x}]
Check(H, ok, x) == IF ok THEN H ELSE V(H, x)
Dup(s) == \E i, j \in DOMAIN s : i # j /\ s[i] = s[j]

\* a configuration or a tick: asks the descriptor service for exactly what is needed, in one call
Fetched(H, o, e, may) ==
    LET need == Needed(H)
        all == Fetches(o) \cup Refused(o)
        H1 == Check(H, Cardinality(all) <= 1 /\ (all # {}) = (may /\ need # {}), "asks when something is needed")
        H2 == Check(H1, \A x \in all : LET ks == IF x[1] = "D" THEN x[4] ELSE x[3] IN Range(ks) = need /\ ~Dup(ks), "asks for what is needed")
        H3 == Check(H2, \A x \in all : (IF x[1] = "D" THEN x[3] ELSE x[2]) = (IF H.cfg = 0 THEN "" ELSE Cfg(H.cfg).ds), "asks the configured service")
    IN IF Fetches(o) = {} THEN H3
       ELSE LET x == CHOOSE x \in Fetches(o) : TRUE IN [H3 EXCEPT !.open = Upd(@, Num(x[2], 1), Range(x[4]))]

Has(P, got, n) == Emb(P, n) \/ n \in DOMAIN got
\* calls made by an event on behalf of request c: each of a known service, with no field its types lack
Calls(H, o) == { i \in DOMAIN o.seq : o.seq[i][1] = "C" /\ o.seq[i][3] # "gate" }
Used(H, o, c) ==
    LET P == Progs[pid]
        H1 == Check(H, \A i \in Calls(H, o) : LET x == o.seq[i] IN
                  Has(P, H.got, x[3]) /\ (x[4] = "e" => x[3] \in DOMAIN H.got /\ H.got[x[3]] = "2"), "calls a service whose types it has")
        acts == IF H.at[c] = 0 THEN <<>> ELSE Cfg(H.at[c]).acts
        \* actions that can do nothing but call: their service was known all along, and nothing new is said
        sure == { i \in DOMAIN acts : ~acts[i].ext /\ (Emb(P, acts[i].key) \/
                     (acts[i].key \in DOMAIN H.had[c] /\ acts[i].key \in DOMAIN H.got)) }
        ended == \E x \in Range(o.seq) : x[1] = "R"
        want(n) == Cardinality({ i \in sure : acts[i].key = n })
        done(n) == Cardinality({ i \in Calls(H, o) : o.seq[i][3] = n })
    IN Check(H1, ended \/ \A n \in KeyNames(P) : done(n) >= want(n), "a service whose types it has can be called")

Watch(H, e, o) ==
    LET P == Progs[pid] IN
    CASE e.ev = "conf" ->
            LET c == Cfg(e.i)
                H1 == [H EXCEPT !.named = @ \cup Range(c.svcs), !.cfg = IF c.valid THEN e.i ELSE @]
                H2 == Fetched(H1, o, e, c.valid)
            IN Check(H2, \A i \in DOMAIN o.ticks : o.ticks[i] = (IF Dyn(H1.named) # {} THEN 2000 ELSE 0), "keeps asking while there is something to learn")
      [] e.ev = "tick" -> Fetched(H, o, e, H.cfg # 0)
      [] e.ev = "fetched" ->
            LET waits == e.tok \in DOMAIN H.open /\ H.open[e.tok] # {}
                use == IF waits /\ e.how = "list" THEN e.ds ELSE <<>>
                new == [n \in { d.key : d \in { x \in Range(use) : x.what \in {"1", "2"} /\ ~Emb(P, x.key) } } |->
                          LET is == { i \in DOMAIN use : use[i].key = n /\ use[i].what \in {"1", "2"} } IN use[CHOOSE i \in is : \A j \in is : j <= i].what]
            IN Check([H EXCEPT !.open = [t \in DOMAIN @ \ {e.tok} |-> @[t] \ DOMAIN new], !.got = new @@ @], o.seq = <<>>, "an answer with types calls nothing")
      [] e.ev = "new" -> [H EXCEPT !.at = Upd(@, e.ctx, H.cfg)]
      [] e.ev = "reqh" ->
            LET H1 == [H EXCEPT !.had = Upd(@, e.ctx, H.got)] IN
            IF H.at[e.ctx] # 0 /\ Cfg(H.at[e.ctx]).gate THEN Check(H1, Calls(H, o) = {}, "calls behind the gate") ELSE Used(H1, o, e.ctx)
      [] e.ev = "answer" ->
            LET c == S.calls[e.tok].ctx IN
            IF S.calls[e.tok].i = 0 /\ e.how = "ok" /\ ~S.rq[c].term THEN Used(H, o, c) ELSE Check(H, Calls(H, o) = {}, "calls out of turn")

E(ev, i, fails, tok, how, ds, c) == [ev |-> ev, i |-> i, fails |-> fails, ft |-> FALSE, tok |-> tok, how |-> how, ds |-> ds, ctx |-> c]
\* what an event is, for the replay of the history in the code
Code(e) == CASE e.ev = "conf" -> "c" \o ToString(e.i) \o (IF e.fails = <<>> THEN "+" ELSE "-")
             [] e.ev = "tick" -> "t" \o (IF e.fails = <<>> THEN "+" ELSE "-")
             [] e.ev = "fetched" -> "f" \o ToString(e.tok) \o "." \o ToString(IF e.how = "status" THEN 0 ELSE CHOOSE r \in DOMAIN Progs[pid].reps : Progs[pid].reps[r] = e.ds)
             [] e.ev = "new" -> "n" \o ToString(e.ctx)
             [] e.ev = "reqh" -> "r" \o ToString(e.ctx)
             [] e.ev = "answer" -> "a" \o ToString(e.ctx) \o "." \o ToString(e.tok) \o (IF e.how = "ok" THEN "+" ELSE "-")
Do(e) == LET T == Step(Progs[pid], S, e) IN
    /\ Possible(S, e) /\ S' = T /\ hist' = Append(hist, Code(e)) /\ UNCHANGED pid /\ G' = Watch(G, e, T.o)
Refuse == { <<>>, <<"cl-ds", "cl-ds2">> }
ConfN == \E i \in DOMAIN Progs[pid].cfgs, f \in Refuse : Do(E("conf", i, f, 0, "", <<>>, 0))
TickN == \E f \in Refuse : Do(E("tick", 0, f, 0, "", <<>>, 0))
Fetched2 == \/ \E t \in S.roots : \/ Do(E("fetched", 0, <<>>, t, "status", <<>>, 0))
                                  \/ \E r \in DOMAIN Progs[pid].reps : Do(E("fetched", 0, <<>>, t, "list", Progs[pid].reps[r], 0))
            \/ \E t \in S.used \ S.roots : Do(E("fetched", 0, <<>>, t, "list", Progs[pid].reps[1], 0))
New == Cardinality(DOMAIN S.ctx) < 2 /\ Do(E("new", 0, <<>>, 0, "", <<>>, 2 + Cardinality(DOMAIN S.ctx)))
Req == \E c \in DOMAIN S.ctx : Do(E("reqh", 0, <<>>, 0, "", <<>>, c))
Ans == \E t \in DOMAIN S.calls : \/ Do(E("answer", 0, <<>>, t, "ok", <<>>, S.calls[t].ctx))
                                 \/ S.calls[t].i = 0 /\ Do(E("answer", 0, <<>>, t, "status", <<>>, S.calls[t].ctx))
Next == Len(hist) < TLCGet(3) /\ (ConfN \/ TickN \/ Fetched2 \/ New \/ Req \/ Ans)
Spec == Init /\ [][Next]_vars
View == <<pid, [S EXCEPT !.o = 0], G, Len(hist)>>
PrintEdge == PrintT(<<"E", pid, ToJson(hist')>>)
Holds == G.viol = {}
\* a key that waits is asked for by exactly the fetch it waits for, which has no answer yet
Waits == \A n \in DOMAIN S.st : S.st[n] = "wait" => S.by[n] \in S.roots /\ n \in G.open[S.by[n]]
Bundled == \A n \in DOMAIN S.st : Emb(Progs[pid], n) => S.st[n] \in {"absent", "emb"}
=============================================================================
