------------------------------ MODULE AttrsTrace ------------------------------
(* Recorded runs against Attrs, one initial state per run. *)
EXTENDS Attrs, Json, IOUtils
ASSUME TLCSet(2, JsonDeserialize(IOEnv.TRACE_FILE))
Batch == TLCGet(2)
VARIABLES tid, k, S, bad
Init == tid \in DOMAIN Batch /\ k = 0 /\ S = Init0(Batch[tid].p) /\ bad = FALSE
Next ==
    /\ ~bad /\ k < Len(Batch[tid].ev)
    /\ LET e == Batch[tid].ev[k + 1] IN
       IF ~Possible(S, e)
       THEN /\ PrintT(<<"MISMATCH", tid, k + 1, "possible", ToJson(S.o)>>)
            /\ bad' = TRUE /\ UNCHANGED <<tid, k, S>>
       ELSE LET T == Step(Batch[tid].p, S, e) IN
            /\ IF T.o = e.o THEN bad' = FALSE
               ELSE PrintT(<<"MISMATCH", tid, k + 1, "obs", ToJson(T.o)>>) /\ bad' = TRUE
            /\ S' = T /\ k' = k + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, k, S, bad>>
=============================================================================
