----------------------------- MODULE ShimTrace -----------------------------
(***************************************************************************)
(* Recorded runs of the filter against Shim.  One JSON file carries many   *)
(* recorded runs; each is an initial state of its own and a chain of steps. *)
(* Every step is the specification's, its result compared with the record. *)
(***************************************************************************)
EXTENDS Legacy, Json, IOUtils

\* read once, and kept: TLC would evaluate the definitions at every use
ASSUME TLCSet(2, JsonDeserialize(IOEnv.TRACE_FILE))
Batch == TLCGet(2)
VARIABLES tid, k, S, bad
vars == <<tid, k, S, bad>>

ASSUME TLCSet(3, TLCEval([i \in DOMAIN Batch |-> Load(Batch[i].p)]))
Progs == TLCGet(3)
Prog(i) == Progs[i]
Ev(i)   == Batch[i].ev
Init == /\ tid \in DOMAIN Batch
        /\ k = 0
        /\ S = Init0(Prog(tid))
        /\ bad = FALSE

Diff(e, T) == 
    IF ~e.poss THEN {} 
    ELSE IF T.o.ret # e.ret THEN {"ret"} ELSE {} \cup
         (IF T.o.seq # e.seq THEN {"seq"} ELSE {}) \cup (IF T.o.m # e.m THEN {"m"} ELSE {})

Next ==
    /\ ~bad
    /\ k < Len(Ev(tid))
    /\ LET e == Ev(tid)[k + 1]
           P == Prog(tid) IN
       IF Possible(S, e) # e.poss
       THEN /\ PrintT(<<"MISMATCH", tid, k + 1, "possible", ToJson(S.o)>>)
            /\ bad' = TRUE /\ UNCHANGED <<tid, k, S>>
       ELSE IF ~e.poss THEN k' = k + 1 /\ UNCHANGED <<tid, S, bad>>
       ELSE LET T == Step(P, S, e) IN
            /\ IF T.o = [ret |-> e.ret, seq |-> e.seq, m |-> e.m] THEN bad' = FALSE
               ELSE PrintT(<<"MISMATCH", tid, k + 1, "obs", ToJson(T.o)>>) /\ bad' = TRUE
            /\ S' = T /\ k' = k + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
\* a recorded run is accepted when its last state is reached
Finished == (k = Len(Ev(tid)) /\ ~bad) => TLCSet(1, TLCGet(1) + 1)
=============================================================================
