------------------------------- MODULE Routing -------------------------------
(***************************************************************************)
(* Which action set governs a request, and which configuration.            *)
(*                                                                         *)
(* A program P read from JSON: P.cfgs, a sequence of configurations        *)
(*   [valid, fallback, sets: <<[name, hosts, preds, empty]>>]              *)
(* hosts are [wild, labels], labels from the leftmost; "*" is a wildcard   *)
(* without labels.  preds are [k, a]: "T", "F", "ERR" (fails), "BAD" (not  *)
(* a boolean), "M" (method is a), "P" (first path segment is a), "HE"      *)
(* (header equals a, fails without the header), "HI" (header present).     *)
(* A request is [host, nohost, method, path, hdr] (hdr "" if absent).      *)
(* fallback: httpHeaderIdentifier is configured.  empty: a set without     *)
(* actions, which leaves nothing to do unless fallback adds some.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(f) == { f[x] : x \in DOMAIN f }
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

(***************************************************************************)
(* As implemented: reversed names in a tree, the deepest entry on the way  *)
(***************************************************************************)
Key(h) == Rev(h.labels) \o (IF h.wild THEN <<>> ELSE <<"$">>)
HostKey(req) == Rev(req.host) \o <<"$">>
Keys(cfg) == UNION { { Key(h) : h \in Range(s.hosts) } : s \in Range(cfg.sets) }
Found(cfg, req) == { k \in Keys(cfg) : Prefix(k, HostKey(req)) /\ (k # HostKey(req) => Len(k) + 1 < Len(HostKey(req))) }
Deepest(ks) == CHOOSE k \in ks : \A j \in ks : Len(j) <= Len(k)
Candidates(cfg, k) == SelectSeq(cfg.sets, LAMBDA s : \E h \in Range(s.hosts) : Key(h) = k)

\* "t", "f" or "e"
Pred(p, req) ==
    CASE p.k = "T" -> "t"
      [] p.k = "F" -> "f"
      [] p.k \in {"ERR", "BAD"} -> "e"
      [] p.k = "M" -> IF req.method = p.a THEN "t" ELSE "f"
      [] p.k = "P" -> IF req.path = p.a THEN "t" ELSE "f"
      [] p.k = "HE" -> IF req.hdr = "" THEN "e" ELSE IF req.hdr = p.a THEN "t" ELSE "f"
      [] p.k = "HI" -> IF req.hdr = "" THEN "f" ELSE "t"
RECURSIVE Preds(_, _)
Preds(ps, req) == IF ps = <<>> THEN "t"
                  ELSE IF Pred(Head(ps), req) # "t" THEN Pred(Head(ps), req)
                  ELSE Preds(Tail(ps), req)

RECURSIVE FirstOf(_, _)
FirstOf(sets, req) ==
    IF sets = <<>> THEN [k |-> "none", set |-> ""]
    ELSE LET r == Preds(Head(sets).preds, req) IN
         IF r = "t" THEN [k |-> IF Head(sets).empty THEN "empty" ELSE "set", set |-> Head(sets).name]
         ELSE IF r = "e" THEN [k |-> "error", set |-> ""]
         ELSE FirstOf(Tail(sets), req)

Select(cfg, req) ==
    IF req.nohost THEN [k |-> "error", set |-> ""]
    ELSE LET ks == Found(cfg, req) IN
         IF ks = {} THEN [k |-> "miss", set |-> ""]
         ELSE LET r == FirstOf(Candidates(cfg, Deepest(ks)), req) IN
              IF r.k = "empty" THEN [k |-> IF cfg.fallback THEN "fallback" ELSE "miss", set |-> ""]
              ELSE IF r.k # "none" THEN r
              ELSE IF cfg.fallback THEN [k |-> "fallback", set |-> ""] ELSE [k |-> "miss", set |-> ""]

(***************************************************************************)
(* Configurations over time                                                *)
(***************************************************************************)
NoCfg == [valid |-> TRUE, fallback |-> FALSE, sets |-> <<>>]
NoObs == [ret |-> "", who |-> "", m |-> <<>>, reply |-> ""]
Init0(P) == [cfg |-> NoCfg, ctx |-> [x \in {} |-> NoCfg], used |-> {}, o |-> NoObs]

\* e: [ev, i, ctx, req]
Possible(S, e) == CASE e.ev = "conf" -> TRUE
                    [] e.ev = "new" -> e.ctx \notin DOMAIN S.ctx
                    [] e.ev = "reqh" -> e.ctx \in DOMAIN S.ctx \ S.used
Outcome(r) == CASE r.k = "set" -> [ret |-> "Continue", who |-> r.set, m |-> <<"hits">>, reply |-> ""]
                [] r.k = "fallback" -> [ret |-> "Continue", who |-> "", m |-> <<"hits">>, reply |-> ""]
                [] r.k = "miss" -> [ret |-> "Continue", who |-> "", m |-> <<"misses">>, reply |-> ""]
                [] r.k = "error" -> [ret |-> "Continue", who |-> "", m |-> <<"errors">>, reply |-> "500"]
Step(P, S, e) ==
    CASE e.ev = "conf" -> [S EXCEPT !.cfg = IF P.cfgs[e.i].valid THEN P.cfgs[e.i] ELSE @,
                                    !.o = [NoObs EXCEPT !.ret = IF P.cfgs[e.i].valid THEN "true" ELSE "false",
                                                        !.m = <<"configs">>]]
      [] e.ev = "new" -> [S EXCEPT !.ctx = (e.ctx :> S.cfg) @@ @, !.o = NoObs]
      [] e.ev = "reqh" -> [S EXCEPT !.used = @ \cup {e.ctx}, !.o = Outcome(Select(S.ctx[e.ctx], e.req))]
=============================================================================
