----------------------------- MODULE ShimProps -----------------------------
(***************************************************************************)
(* What a user relies on, over what can be observed of one request: a      *)
(* monitor that looks at the program, the events and the observations, and *)
(* not at the state of the filter.  Mon folds one step into the ghost      *)
(* record G; G.viol collects the names of the properties that were broken. *)
(***************************************************************************)
EXTENDS Legacy

Ghost0 ==
    [ out |-> {},      \* calls without an answer: [tok, id]
      sent |-> {},     \* actions that made their call
      toks |-> {},     \* tokens used so far
      ok |-> {},       \* actions whose reply was decoded
      failed |-> {},   \* actions whose call failed after it was made
      eff |-> {},      \* actions that had an observable effect
      term |-> FALSE,  \* the request was answered for good
      resph |-> FALSE, \* the response headers arrived
      respe |-> FALSE, \* the end of the response body arrived
      rlh |-> {},      \* actions that have headers of a rate limit to add to the response
      nrep |-> 0,      \* local replies
      hits |-> 0, allowed |-> 0, denied |-> 0, errors |-> 0,
      viol |-> {} ]

Occurs(m, x) == Cardinality({ i \in DOMAIN m : m[i] = x })
Known(P, id) == id \in DOMAIN P.acts
EffectOf(x) == CASE x[1] = "C" -> x[3] [] x[1] = "F" -> x[2] [] x[1] = "H" -> x[3]
                 [] x[1] = "R" -> x[2] [] OTHER -> ""
IsGuard(P, id) == Known(P, id) /\ Act(P, id).guard
IsTerminal(P, x) == x[1] = "R" /\ (x[2] = "500" \/ (Known(P, x[2]) /\ Act(P, x[2]).term))

\* one element of the ordered observations of a step
Elem(P, G, x) ==
    LET id == EffectOf(x)
        known == Known(P, id)
        top == IF known THEN TopOf(P, id) ELSE ""
        v ==
          \* nothing is done for a request that was already answered for good
          (IF G.term /\ x[1] \in {"C", "F", "H", "P", "R"} THEN {"C05"} ELSE {})
          \* an action makes its call once, under a token of its own
          \cup (IF x[1] = "C" /\ (id \in G.sent \/ x[2] \in G.toks) THEN {"C07"} ELSE {})
          \* an action acts only when all it follows have finished
          \cup (IF known /\ ( \/ \E c \in G.out : c.id \in Deps(P, top)
                              \/ \E d \in G.eff : Known(P, d) /\ top \in Deps(P, TopOf(P, d)) /\ Act(P, id).parent = "" )
                THEN {"C06"} ELSE {})
          \* the actions of a reply act only on a reply that was received and decoded
          \cup (IF known /\ Act(P, id).parent # "" /\ Act(P, id).parent \notin G.ok THEN {"C09"} ELSE {})
          \* a failed call has no consequences but those of its failure mode
          \cup (IF known /\ (Anc(P, id) \ {id}) \cap G.failed # {} THEN {"C04"} ELSE {})
          \* response headers change when there are some
          \cup (IF x[1] = "H" /\ x[2] = "resp" /\ ~G.resph THEN {"C16"} ELSE {})
    IN [G EXCEPT !.viol = @ \cup v,
                 !.eff = IF known THEN @ \cup {id} ELSE @,
                 !.sent = IF x[1] = "C" THEN @ \cup {id} ELSE @,
                 !.toks = IF x[1] \in {"C", "X"} THEN @ \cup {x[2]} ELSE @,
                 !.out = IF x[1] \in {"C", "X"} THEN @ \cup {[tok |-> x[2], id |-> id]} ELSE @,
                 !.nrep = IF x[1] = "R" THEN @ + 1 ELSE @,
                 !.term = @ \/ IsTerminal(P, x)]

RECURSIVE Elems(_, _, _)
Elems(P, G, sq) == IF sq = <<>> THEN G ELSE Elems(P, Elem(P, G, Head(sq)), Tail(sq))

HasR(sq) == \E i \in DOMAIN sq : sq[i][1] = "R"
Released(o) == o.ret = "Continue" \/ \E i \in DOMAIN o.seq : o.seq[i][1] = "U"

\* a guard that has not called yet because an action it follows is waiting for a reply
RECURSIVE Held(_, _, _)
Held(P, G, id) == \E d \in Deps(P, id) : (\E c \in G.out : c.id = d) \/ Held(P, G, d)
HeldGuards(P, G) == { id \in Range(P.top) : IsGuard(P, id) /\ id \notin G.sent /\ Held(P, G, id) }

\* what the reply of a service of the legacy configuration must lead to, at once
IsLeg(P, id) == "leg" \in DOMAIN P /\ id \in DOMAIN P.leg
LegRefusal(P, id, tok, res) ==
    CASE res = "a-den"  -> <<id \o ".0", "401|x-deny=d" \o tok \o ",x-deny=e" \o tok \o "|b" \o tok>>
      [] res = "a-den0" -> <<id \o ".0", "403||b" \o tok>>
      [] res = "a-dens" -> <<id \o ".0", "403||b" \o tok>>
      [] res = "a-dent" -> <<id \o ".0", "302|location=l" \o tok \o "|">>
      [] res = "r-over" -> <<id \o ".0", "429||Too Many Requests\n">>
      [] res = "r-overh" -> <<id \o ".0", "429|x-rl=l" \o tok \o "|Too Many Requests\n">>
      [] res \in {"a-okx", "a-none", "r-unk"} -> <<"500", "">>
      [] OTHER -> <<>>
LegHeader(id, tok, res) ==
    CASE res \in {"a-okh", "a-okmh"} -> <<"H", "req", id \o ".3", "h" \o tok>>
      [] OTHER -> <<>>
LegStored(res, tok) ==
    CASE res \in {"a-okm", "a-okmh"} -> <<"P", "auth", "u" \o tok>>
      [] res = "a-okm0" -> <<"P", "auth", NOKEY>>
      [] OTHER -> <<>>
LegViol(P, aid, e, o, G3) ==
    LET svc == P.leg[aid].svc
        ref == LegRefusal(P, aid, ToString(e.tok), e.res)
        hdr == LegHeader(aid, ToString(e.tok), e.res)
        sto == LegStored(e.res, ToString(e.tok)) IN
    IF svc = "report"
    THEN IF \E i \in DOMAIN o.seq : EffectOf(o.seq[i]) # aid /\ EffectOf(o.seq[i]) \notin DOMAIN P.leg
                                     /\ Known(P, EffectOf(o.seq[i])) /\ Act(P, EffectOf(o.seq[i])).parent = aid
         THEN {"C12"} ELSE {}
    ELSE (IF ref # <<>> /\ ~(o.seq # <<>> /\ SubSeq(o.seq[1], 1, 3) = <<"R">> \o ref /\ Len(o.seq) >= 1 /\ G3.term)
          THEN {IF svc = "auth" THEN "C10" ELSE "C11"} ELSE {})
         \cup (IF P.fail = <<>> /\ hdr # <<>> /\ ~(\E i \in DOMAIN o.seq : o.seq[i] = hdr) THEN {"C10"} ELSE {})
         \cup (IF P.fail = <<>> /\ sto # <<>> /\ ~(\E i \in DOMAIN o.seq : o.seq[i] = sto) THEN {"C10"} ELSE {})

Mon(P, G0, e, o) ==
    LET mine == IF e.ev = "grpc" THEN { c \in G0.out : c.tok = ToString(e.tok) } ELSE {}
        aid  == IF mine = {} THEN "" ELSE (CHOOSE c \in mine : TRUE).id
        live == aid # "" /\ ~G0.term
        fails == live /\ (e.res = "status" \/ (e.res = "garbage" /\ Act(P, aid).reply # <<>>))
        G1 == [G0 EXCEPT !.out = @ \ mine,
                         !.ok = IF live /\ ~fails THEN @ \cup {aid} ELSE @,
                         !.rlh = IF live /\ ~fails /\ e.res = "r-okh" /\ IsLeg(P, aid) /\ P.leg[aid].svc \in {"rl", "check"}
                                 THEN @ \cup {aid \o ".1"} ELSE @,
                         !.failed = IF fails THEN @ \cup {aid} ELSE @,
                         !.resph = @ \/ e.ev = "resph",
                         !.respe = @ \/ (e.ev = "respb" /\ e.chunk.eos)]
        G2 == Elems(P, G1, o.seq)
        G3 == [G2 EXCEPT !.hits = @ + Occurs(o.m, "hits"), !.allowed = @ + Occurs(o.m, "allowed"),
                         !.denied = @ + Occurs(o.m, "denied"), !.errors = @ + Occurs(o.m, "errors")]
        first == IF o.seq = <<>> THEN <<"">> ELSE o.seq[1]
        v ==
          \* nothing is let through while a guard is waiting for its reply
          (IF Released(o) /\ \E c \in G3.out : IsGuard(P, c.id) THEN {"C02"} ELSE {})
          \cup (IF Released(o) /\ ~G3.term /\ HeldGuards(P, G3) # {}
                   /\ ~(\E id \in HeldGuards(P, G3) : Act(P, id).pred.k \in {"F"}) THEN {"C02h"} ELSE {})
          \* the end of a response body waits for every call
          \cup (IF Released(o) /\ G3.respe /\ G3.out # {} THEN {"C02"} ELSE {})
          \* the failure of a service that must not fail open answers the request, at once and for good
          \cup (IF fails /\ Act(P, aid).mode = "deny"
                   /\ ~(first[1] = "R" /\ first[2] = "500" /\ G3.term) THEN {"C03"} ELSE {})
          \cup (IF (\E i \in DOMAIN o.seq : o.seq[i][1] = "F" /\ Act(P, o.seq[i][2]).mode = "deny"
                       /\ ~(i < Len(o.seq) /\ o.seq[i + 1][1] = "R" /\ o.seq[i + 1][2] = "500")) THEN {"C03"} ELSE {})
          \* the failure of one that may fail open does not
          \cup (IF fails /\ Act(P, aid).mode = "allow" /\ first[1] = "R" /\ first[2] = "500"
                   /\ ~(\E id \in DOMAIN P.acts : Act(P, id).mode = "deny" \/ Act(P, id).term) THEN {"C04"} ELSE {})
          \* what a reply of the legacy services leads to
          \cup (IF live /\ ~fails /\ IsLeg(P, aid) THEN LegViol(P, aid, e, o, G3) ELSE {})
          \* the headers of a rate limit are on the response before it goes on
          \cup (IF G3.resph /\ ~G3.term /\ P.fail = <<>> /\ ~(G3.rlh \subseteq G3.eff) THEN {"C11"} ELSE {})
          \* pauses end: nothing stays paused that no reply could release
          \cup (IF o.ret = "Pause" /\ G3.out = {} THEN {"C08"} ELSE {})
          \* what is counted is what happened
          \cup (IF Occurs(o.m, "hits") # (IF e.ev = "reqh" THEN 1 ELSE 0)
                   \/ Occurs(o.m, "allowed") # (IF e.ev = "resph" THEN 1 ELSE 0)
                   \/ Occurs(o.m, "denied") # Cardinality({ i \in DOMAIN o.seq : o.seq[i][1] = "R" })
                   \/ (fails /\ Occurs(o.m, "errors") = 0) THEN {"C22"} ELSE {})
    IN [G3 EXCEPT !.viol = @ \cup v]
=============================================================================
