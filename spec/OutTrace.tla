------------------------------ MODULE OutTrace ------------------------------
(***************************************************************************)
(* Recorded runs against Out.  A run is a sequence of events of several    *)
(* requests and of the configuration; one JSON file carries many.          *)
(***************************************************************************)
EXTENDS Out, Json, IOUtils

ASSUME TLCSet(2, JsonDeserialize(IOEnv.TRACE_FILE))
Batch == TLCGet(2)
ASSUME TLCSet(3, TLCEval([i \in DOMAIN Batch |-> [j \in DOMAIN Batch[i].p |-> Load(Batch[i].p[j])]]))
VARIABLES tid, k, Ss, buf, lvl, over, owed, bad
vars == <<tid, k, Ss, buf, lvl, over, owed, bad>>
Progs == TLCGet(3)[tid]
Ev == Batch[tid].ev

Init == /\ tid \in DOMAIN Batch
        /\ k = 0 /\ bad = FALSE /\ lvl = 0 /\ buf = <<>> /\ over = FALSE /\ owed = FALSE
        /\ Ss = [j \in DOMAIN TLCGet(3)[tid] |-> Init0(TLCGet(3)[tid][j])]

Wrong(what, x) == PrintT(<<"MISMATCH", tid, k + 1, what, ToJson(x)>>) /\ bad' = TRUE
Same == bad' = FALSE
\* A span that never was exported cannot be named: no call or span may be left without a name, unless the buffer overflows in the run.
Named(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i] \/ a[i] = <<"?lost">> \o Tail(b[i])
Nameless(a) == \E i \in DOMAIN a : a[i][1] = "?lost"
Settled == k + 1 = Len(Ev) /\ owed' => over'

Next ==
    /\ ~bad
    /\ k < Len(Ev)
    /\ k' = k + 1 /\ UNCHANGED tid
    /\ LET e == Ev[k + 1] IN
       CASE e.ev = "conf" ->
            /\ lvl' = IF e.ok THEN LevelOf(e.level) ELSE lvl
            /\ UNCHANGED <<Ss, buf, over, owed>>
            /\ IF ~Settled THEN Wrong("nameless", <<>>) ELSE IF e.ret = e.ok /\ e.x = <<>> /\ e.seq = <<>> THEN Same ELSE Wrong("configuration", e.ok)
         [] e.ev = "drop" ->
            LET P == [Progs[e.c] EXCEPT !.lvl = lvl]
                sp == Tag(P, e.c, Dropped(P, Ss[e.c])) IN
            /\ buf' = IF sp = <<>> THEN buf ELSE Append(buf, sp)
            /\ over' = (over \/ Len(Flat(buf)) + Len(sp) > CAPACITY)
            /\ UNCHANGED <<Ss, lvl, owed>>
            /\ IF ~Settled THEN Wrong("nameless", <<>>) ELSE IF e.seq = <<>> THEN Same ELSE Wrong("drop", <<>>)
         [] OTHER ->
            LET P == [Progs[e.c] EXCEPT !.lvl = lvl, !.pend = buf # <<>>] IN
            IF Possible(Ss[e.c], e) # e.poss THEN Wrong("possible", Ss[e.c].o) /\ UNCHANGED <<Ss, buf, lvl, over, owed>>
            ELSE IF ~e.poss THEN Same /\ UNCHANGED <<Ss, buf, lvl, over, owed>>
            ELSE
            LET T == Step(P, Ss[e.c], e)
                sp == Tag(P, e.c, T.sp)
                ss == IF sp = <<>> THEN buf ELSE Append(buf, sp)
                out == \E i \in DOMAIN T.o.seq : T.o.seq[i][1] \in {"X", "XF"} IN
            /\ Ss' = [Ss EXCEPT ![e.c] = T]
            /\ buf' = IF out THEN <<>> ELSE ss
            /\ over' = (over \/ Len(Flat(ss)) > CAPACITY)
            /\ owed' = (owed \/ Nameless(e.md) \/ \E i \in DOMAIN e.x : e.x[i][4] = "?lost")
            /\ UNCHANGED lvl
            /\ IF T.o # [ret |-> e.ret, seq |-> e.seq, m |-> e.m] THEN Wrong("obs", T.o)
               ELSE IF e.to # Tos(P, T.o.seq) THEN Wrong("address", Tos(P, T.o.seq))
               ELSE IF ~Named(e.md, Callers(P, T.o.seq)) THEN Wrong("caller", Callers(P, T.o.seq))
               ELSE IF ~(IF out THEN Exported(ss, e.x) ELSE e.x = <<>>) THEN Wrong("spans", Flat(ss))
               ELSE IF ~Settled THEN Wrong("nameless", <<>>)
               ELSE Same
Spec == Init /\ [][Next]_vars
=============================================================================
