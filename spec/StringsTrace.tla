------------------------------ MODULE StringsTrace -----------------------------
(* What the code answered, against Strings. *)
EXTENDS Strings, Json, IOUtils
ASSUME TLCSet(2, JsonDeserialize(IOEnv.TRACE_FILE))
Batch == TLCGet(2)
VARIABLES tid, bad
Init == tid \in DOMAIN Batch /\ bad = FALSE
Next == /\ ~bad
        /\ Eval(Batch[tid]) # Batch[tid].got
        /\ PrintT(<<"MISMATCH", tid, 1, "got", ToJson(Eval(Batch[tid]))>>)
        /\ bad' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, bad>>
=============================================================================
