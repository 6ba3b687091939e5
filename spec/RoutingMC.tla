------------------------------ MODULE RoutingMC ------------------------------
(***************************************************************************)
(* Every order of (re)configurations, new streams and requests, for small  *)
(* generated configurations and requests.  The property is stated without  *)
(* the tree: what it means for a host name to be the most specific one.    *)
(***************************************************************************)
EXTENDS Routing, Json, IOUtils
ASSUME TLCSet(2, JsonDeserialize(IOEnv.PROG_FILE))
Progs == TLCGet(2)
VARIABLES pid, S, G, hist
vars == <<pid, S, G, hist>>

\* ghost: the last accepted configuration, that of each stream, and whether a step was wrong
Init == /\ pid \in DOMAIN Progs /\ S = Init0(Progs[pid]) /\ hist = <<>>
        /\ G = [last |-> 0, at |-> [x \in {} |-> 0], viol |-> {}]

Matches(h, host) ==
    IF h.wild THEN Len(host) > Len(h.labels) /\ \A i \in 1..Len(h.labels) : h.labels[i] = host[Len(host) - Len(h.labels) + i]
    ELSE host = h.labels
Better(a, b) == (~a.wild /\ b.wild) \/ (a.wild = b.wild /\ Len(a.labels) > Len(b.labels))
All(cfg) == UNION { Range(s.hosts) : s \in Range(cfg.sets) }
Best(cfg, host) == { h \in All(cfg) : Matches(h, host) /\ ~\E g \in All(cfg) : Matches(g, host) /\ Better(g, h) }
\* the set governing a request: attached to the best name, predicates hold, none before it does
Governs(cfg, req, i) ==
    /\ Best(cfg, req.host) \cap Range(cfg.sets[i].hosts) # {}
    /\ \A p \in Range(cfg.sets[i].preds) : Pred(p, req) = "t"
    /\ \A j \in 1..(i - 1) : Best(cfg, req.host) \cap Range(cfg.sets[j].hosts) # {}
                             => \E p \in Range(cfg.sets[j].preds) : Pred(p, req) # "t"
Right(cfg, req, o) ==
    /\ o.who # "" => \E i \in DOMAIN cfg.sets : cfg.sets[i].name = o.who /\ Governs(cfg, req, i)
    /\ (o.who = "" /\ o.reply = "") => \A i \in DOMAIN cfg.sets : Governs(cfg, req, i) => cfg.sets[i].empty
    /\ o.reply = "500" => (req.nohost \/ \E i \in DOMAIN cfg.sets :
            Best(cfg, req.host) \cap Range(cfg.sets[i].hosts) # {} /\ \E p \in Range(cfg.sets[i].preds) : Pred(p, req) = "e")
    /\ (Best(cfg, req.host) = {} /\ ~req.nohost) => o.m = <<"misses">>

E(ev, i, c, r) == [ev |-> ev, i |-> i, ctx |-> c, req |-> r]
NoReq == [host |-> <<>>, nohost |-> FALSE, method |-> "", path |-> "", hdr |-> ""]
Do(e, code) == LET T == Step(Progs[pid], S, e) IN
    /\ Possible(S, e) /\ S' = T /\ hist' = Append(hist, code) /\ UNCHANGED pid
    /\ G' = CASE e.ev = "conf" -> [G EXCEPT !.last = IF Progs[pid].cfgs[e.i].valid THEN e.i ELSE @]
              [] e.ev = "new" -> [G EXCEPT !.at = (e.ctx :> G.last) @@ @]
              [] e.ev = "reqh" -> [G EXCEPT !.viol = IF Right(IF G.at[e.ctx] = 0 THEN NoCfg ELSE Progs[pid].cfgs[G.at[e.ctx]],
                                                              e.req, T.o) THEN @ ELSE @ \cup {hist'}]
Conf == \E i \in DOMAIN Progs[pid].cfgs : Do(E("conf", i, 0, NoReq), "c" \o ToString(i))
New == LET c == 2 + Cardinality(DOMAIN S.ctx) IN Do(E("new", 0, c, NoReq), "n" \o ToString(c))
Req == \E c \in DOMAIN S.ctx, q \in DOMAIN Progs[pid].reqs :
         Do(E("reqh", 0, c, Progs[pid].reqs[q]), "r" \o ToString(c) \o "." \o ToString(q))
Next == Len(hist) < 5 /\ (Conf \/ New \/ Req)
Spec == Init /\ [][Next]_vars
View == <<pid, [S EXCEPT !.o = 0], G, Len(hist)>>
PrintEdge == PrintT(<<"E", pid, ToJson(hist')>>)
Holds == G.viol = {}
=============================================================================
