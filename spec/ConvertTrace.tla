----------------------------- MODULE ConvertTrace ------------------------------
(* What the code made of each case, against Convert. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
ASSUME TLCSet(2, JsonDeserialize(IOEnv.TRACE_FILE))
Batch == TLCGet(2).cases
T32(d) == TLCGet(2).f32[d]
TDbl(n) == TLCGet(2).dbl[n]
INSTANCE Convert WITH F32 <- T32, DblOf <- TDbl
VARIABLES tid, bad
Parts == << "sent", "second", "exp", "hs", "answer" >>
Shown(e, g, p) == IF p # "exp" THEN g[p] ELSE
    [as |-> IF ~g.exp.there THEN "none" ELSE IF e.exp.as = "none" THEN "?" ELSE e.exp.as,
     w |-> IF ~g.exp.there THEN ERR ELSE IF e.exp.as = "Struct" THEN g.exp.s ELSE g.exp.v]
Init == tid \in DOMAIN Batch /\ bad = FALSE
Next == /\ ~bad
        /\ LET c == Batch[tid]  e == Outcome(c) IN
           \E p \in DOMAIN Parts :
              /\ Shown(e, c.got, Parts[p]) # e[Parts[p]]
              /\ \A q \in 1..p - 1 : Shown(e, c.got, Parts[q]) = e[Parts[q]]
              /\ PrintT(<<"MISMATCH", tid, 1, Parts[p], ToJson(e[Parts[p]])>>)
        /\ bad' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, bad>>
=============================================================================
