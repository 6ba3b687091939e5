------------------------------ MODULE StreamTrace -----------------------------
(* What the code made of streams: got is the number it stored, 0 if none.  *)
EXTENDS Stream, Json, IOUtils
ASSUME TLCSet(2, JsonDeserialize(IOEnv.TRACE_FILE))
Batch == TLCGet(2)
VARIABLES tid, bad
Init == tid \in DOMAIN Batch /\ bad = FALSE
Next == /\ ~bad
        /\ Whole(Batch[tid].s) # Batch[tid].got
        /\ PrintT(<<"MISMATCH", tid, 1, "got", ToString(Whole(Batch[tid].s))>>)
        /\ bad' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, bad>>
=============================================================================
