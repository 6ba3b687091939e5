---------------------------- MODULE RoutingTrace ----------------------------
(* Recorded runs against Routing, one initial state per run. *)
EXTENDS Routing, Json, IOUtils
\* read once, and kept: TLC would evaluate the definitions at every use
ASSUME TLCSet(2, JsonDeserialize(IOEnv.TRACE_FILE))
Batch == TLCGet(2)
VARIABLES tid, k, S, bad
Init == tid \in DOMAIN Batch /\ k = 0 /\ S = Init0(Batch[tid].p) /\ bad = FALSE
Next ==
    /\ ~bad /\ k < Len(Batch[tid].ev)
    /\ LET e == Batch[tid].ev[k + 1]
           T == Step(Batch[tid].p, S, e) IN
       /\ IF T.o = e.o THEN bad' = FALSE
          ELSE PrintT(<<"MISMATCH", tid, k + 1, "obs", ToJson(T.o)>>) /\ bad' = TRUE
       /\ S' = T /\ k' = k + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, k, S, bad>>
=============================================================================
